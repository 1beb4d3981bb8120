SPECIFICATION Spec
INVARIANTS Is Part Parts Opposite Periodic Linear Bloch Parseval
CHECK_DEADLOCK FALSE
