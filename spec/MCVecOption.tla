---------------------------- MODULE MCVecOption ----------------------------
EXTENDS VecOption
View == v
=============================================================================
