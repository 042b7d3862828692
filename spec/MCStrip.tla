---- MODULE MCStrip ----
EXTENDS StripGen
DemV == <<2, 1>>
ItV == <<1, 1, 2>>
IvV == <<<<0, 1>>, <<1, 3>>, <<-2, 0>>>>
DemG == <<2, 2, 2>>
ItG == <<1, 1, 2, 2, 3, 3>>
IvG == <<<<0, 1>>, <<1, 3>>, <<-2, 0>>, <<3, 5>>, <<0, 2>>, <<4, 6>>>>
====
