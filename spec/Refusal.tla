------------------------------ MODULE Refusal ------------------------------
(***************************************************************************)
(* Which requests the library carries out and which it refuses.  A request *)
(* is a record [o |-> ..., ...]; a state is what the caller can see: the   *)
(* open layouts (in the order in which they are addressed) with the        *)
(* handles of their items, the supply of containers, the solution the      *)
(* problem currently refers to.  Indices count from 1.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Stock(s, b) == s.sup[b] - Cardinality({n \in 1..Len(s.ls) : s.ls[n].bin = b})
HasItem(s, a) == a.it \in 1..s.ni
HasLay(s, a) == a.i \in 1..Len(s.ls)
(* bin packing: layouts are either open ("real") or templates, one per container *)
BpAllows(s, a) ==
  CASE a.o = "open" -> a.i \in 1..Len(s.sup) /\ Stock(s, a.i) > 0 /\ HasItem(s, a)
    [] a.o = "place" -> HasLay(s, a) /\ HasItem(s, a)
    [] a.o = "remove" -> HasLay(s, a) /\ a.k \in s.ls[a.i].keys
    [] a.o = "close" -> HasLay(s, a)
    [] a.o = "join" -> Stock(s, a.b) > 0                     \* a layout from elsewhere takes a container too
    [] a.o = "sol" -> a.old = 0 \/ a.old = s.ref             \* built on the current reference or on nothing
    [] a.o = "restore" -> TRUE
    [] a.o \in {"removet", "closet"} -> FALSE                \* a template holds nothing and stays
(* strip packing: there is exactly one layout *)
SpAllows(s, a) ==
  CASE a.o = "place" -> a.t = 0 /\ a.i = 1 /\ HasItem(s, a)
    [] a.o = "remove" -> a.t = 0 /\ a.i = 1 /\ a.k \in s.ls[1].keys
    [] a.o = "sol" -> TRUE
    [] a.o = "restore" -> TRUE
(* a layout on its own *)
LayAllows(s, a) ==
  CASE a.o = "place" -> TRUE
    [] a.o = "remove" -> a.k \in s.ls[1].keys
    [] a.o = "restore" -> a.id = s.ls[1].id                  \* only its own snapshots
(* an engine: hazards are the "handles" *)
EngAllows(s, a) ==
  CASE a.o = "add" -> TRUE
    [] a.o = "del" -> a.k \in s.ls[1].keys
    [] a.o = "commit" -> TRUE
Allows(kind, s, a) == CASE kind = "bp" -> BpAllows(s, a) [] kind = "sp" -> SpAllows(s, a)
                        [] kind = "lay" -> LayAllows(s, a) [] kind = "eng" -> EngAllows(s, a)

(* --- data ------------------------------------------------------------- *)
Area2(P) == LET S[i \in 0..Len(P)] == IF i = 0 THEN 0
                 ELSE S[i - 1] + P[i][1] * P[(i % Len(P)) + 1][2] - P[(i % Len(P)) + 1][1] * P[i][2]
            IN S[Len(P)]
Outline(P) == /\ Len(P) >= 3
              /\ \A i \in 1..Len(P), j \in 1..Len(P) : i # j => P[i] # P[j]
              /\ Area2(P) # 0
(* in files the first vertex may be repeated at the end, once *)
Open_(P) == IF Len(P) > 0 /\ P[1] = P[Len(P)] THEN SubSeq(P, 1, Len(P) - 1) ELSE P
NQ == 10
FileShape(x, sup) == CASE x.k = "rect" -> x.w > 0 /\ x.h > 0
                       [] x.k = "sp" -> Outline(Open_(x.p))
                       [] x.k = "poly" -> "poly" \in sup /\ Outline(Open_(x.p)) /\ \A n \in 1..Len(x.in) : Outline(Open_(x.in[n]))
                       [] x.k = "multi" -> FALSE
FileItem(x) == FileShape(x, {})
FileBin(x) == FileShape(x.s, {"poly"}) /\ \A n \in 1..Len(x.z) : x.z[n].q < NQ /\ FileShape(x.z[n].s, {})
FileAllows(f) == /\ (f.hb = 1) # (f.hs = 1)
                 /\ \A n \in 1..Len(f.items) : FileItem(f.items[n])
                 /\ (f.hb = 1 => \A n \in 1..Len(f.bins) : FileBin(f.bins[n]))
(* a solution file against an instance *)
SolAllows(f) ==
  /\ \A n \in 1..Len(f.ls) : \A m \in 1..Len(f.ls[n].items) : f.ls[n].items[m] \in 1..f.ni
  /\ IF f.strip = 1 THEN Len(f.ls) = 1 /\ f.ls[1].c = "strip"
     ELSE /\ \A n \in 1..Len(f.ls) : f.ls[n].c = "bin" /\ f.ls[n].b \in 1..Len(f.sup) /\ Len(f.ls[n].items) > 0
          /\ \A b \in 1..Len(f.sup) : Cardinality({n \in 1..Len(f.ls) : f.ls[n].c = "bin" /\ f.ls[n].b = b}) <= f.sup[b]
=============================================================================
