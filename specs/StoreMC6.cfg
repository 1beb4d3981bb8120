SPECIFICATION Spec
CONSTANTS
 N = 5
 Names = {"f", "g"}
 MaxOps = 5
VIEW view
INVARIANTS Sound RoundTrip Compose
PROPERTY FilesKept
CHECK_DEADLOCK FALSE
