------------------------------ MODULE StreamMC ------------------------------
EXTENDS StreamImpl
Files == <<[len |-> 3, ok |-> TRUE], [len |-> 2, ok |-> TRUE], [len |-> 0, ok |-> FALSE]>>
=============================================================================
