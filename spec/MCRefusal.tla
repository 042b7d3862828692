---- MODULE MCRefusal ----
EXTENDS RefusalGen
SupV == <<1, 2>>
SupG == <<2, 1, 3>>
====
