------------------------------- MODULE WrapMC -------------------------------
EXTENDS Wrap
Few == {-1, 1, 2, -3}
Img == {-2, 1}
=============================================================================
