-------------------------------- MODULE MCWire --------------------------------
EXTENDS WireImpl
MCSender == <<1, 1, 2>>
MCSize == <<2, 1, 3>>
==============================================================================
