---- MODULE MCPack ----
EXTENDS PackGen
DemV == <<2, 1>>
SupV == <<1, 2>>
ItV == <<1, 1, 2>>
ItV2 == <<1, 2>>
DemG == <<3, 2, 2>>
SupG == <<2, 2, 2>>
ItG == <<1, 1, 2, 2, 3>>
====
