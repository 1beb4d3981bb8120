------------------------------- MODULE StructMC -------------------------------
EXTENDS Struct, StructDefs
=============================================================================
