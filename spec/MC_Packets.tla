----------------------------- MODULE MC_Packets -----------------------------
EXTENDS Packets
MCU == [f \in Fields |-> IF f = 1 THEN 1 ELSE 2]
=============================================================================
