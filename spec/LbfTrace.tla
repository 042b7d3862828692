------------------------------- MODULE LbfTrace -------------------------------
(***************************************************************************)
(* The left-bottom-fill optimizer, from instance file to solution file.    *)
(*                                                                         *)
(* C15: "sol" is one solution file read against the instance file: items   *)
(* (demand d, quality q, orientations o in tenths of degrees, diameter),   *)
(* bins (stock, outline, holes, zones), and the layouts with every placed  *)
(* item moved to where the file says it is.  Lengths are in 1/S, rotations *)
(* in 1/10000 rad.                                                         *)
(* C16: after "begin", every "run" is the solution of the same instance,   *)
(* configuration and seed, computed under other circumstances.             *)
(***************************************************************************)
EXTENDS Geo, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lenient == "LENIENT" \in DOMAIN IOEnv
VARIABLES l, ref

K == 3
Near(a, b, t) == Abs(a - b) <= t
Rect(w, h) == <<<<0, 0>>, <<w, 0>>, <<w, h>>, <<0, h>>>>

Outer(e, y) == IF y.b = -1 THEN Rect(y.w, y.h) ELSE e.bins[y.b + 1].o
Rad(a) == (a * 174533) \div 10000
Turn == 62832
SameAngle(a, r) == LET d == (Rad(a) - r) % Turn IN d <= 4 \/ d >= Turn - 4
OrientationOK(it, r) ==
  \/ it.any = 1
  \/ it.o = <<>> /\ SameAngle(0, r)
  \/ \E i \in 1..Len(it.o) : SameAngle(it.o[i], r)
(* a zone stands in the way of items that ask for a better quality, or for the best there is *)
InTheWay(it, z) == it.q = -1 \/ z[1] < it.q

PlacedOK(e, y, x) ==
  LET it == e.items[x.i + 1] IN
  /\ OrientationOK(it, x.r)
  /\ Leaves(x.p, Outer(e, y), K) # "T"
  /\ y.b # -1 =>
       LET b == e.bins[y.b + 1] IN
       /\ \A i \in 1..Len(b.h) : Overlap(x.p, b.h[i], K) # "T"
       /\ \A i \in 1..Len(b.z) : InTheWay(it, b.z[i]) => Overlap(x.p, b.z[i][2], K) # "T"
LayoutOK(e, y) ==
  /\ y.b \in -1..Len(e.bins) - 1
  /\ \A i \in 1..Len(y.it) : PlacedOK(e, y, y.it[i])
  /\ LET bx == [i \in 1..Len(y.it) |-> PolyBox(y.it[i].p)] IN
     \A i \in 1..Len(y.it) : \A j \in 1..i - 1 : OverlapB(y.it[i].p, bx[i], y.it[j].p, bx[j], K) # "T"

PlacedOf(e, k) == SumSeq([i \in 1..Len(e.lay) |-> Cardinality({j \in 1..Len(e.lay[i].it) : e.lay[i].it[j].i = k - 1})])
UsedOf(e, b) == Cardinality({i \in 1..Len(e.lay) : e.lay[i].b = b - 1})

(* an empty rectangular bin at least four times as wide and high as the item is long, and a hundred samples: *)
(* the optimizer would have had to miss a quarter of the bin a hundred times to leave the item out          *)
IsRect(P) == Len(P) = 4 /\ Rectilinear(P)
Roomy(e, b, it) ==
  /\ e.bins[b].h = <<>> /\ e.bins[b].z = <<>>
  /\ IsRect(e.bins[b].o)
  /\ LET x == PolyBox(e.bins[b].o) IN 4 * it.dia <= Min2(x[3] - x[1], x[4] - x[2])
  /\ e.bins[b].s = -1 \/ UsedOf(e, b) < e.bins[b].s
MustPlace(e, k) == e.uni >= 100 /\ \E b \in 1..Len(e.bins) : Roomy(e, b, e.items[k])

SolOK(e) ==
  /\ e.ok = 1
  /\ \A i \in 1..Len(e.lay) : LayoutOK(e, e.lay[i])
  /\ \A k \in 1..Len(e.items) : PlacedOf(e, k) <= e.items[k].d
  /\ IF e.strip >= 0
     THEN /\ Len(e.lay) = 1 /\ e.lay[1].b = -1
          /\ Near(e.lay[1].h, e.strip, 1)
          /\ \A k \in 1..Len(e.items) : PlacedOf(e, k) = e.items[k].d
     ELSE /\ \A i \in 1..Len(e.lay) : e.lay[i].b >= 0 /\ Len(e.lay[i].it) > 0
          /\ \A b \in 1..Len(e.bins) : e.bins[b].s = -1 \/ UsedOf(e, b) <= e.bins[b].s
          /\ \A k \in 1..Len(e.items) : MustPlace(e, k) => PlacedOf(e, k) = e.items[k].d
  /\ e.cli = 1 => e.svgs = Len(e.lay)

----------------------------------------------------------------------------
(* one optimizer run is a function of its inputs *)
None == "none"
RunOK(e) == e.ok = 1 /\ (ref = None \/ e.d = ref)
OK(e) == CASE e.e = "sol" -> SolOK(e) [] e.e = "begin" -> TRUE [] e.e = "run" -> RunOK(e) [] OTHER -> FALSE
Init == l = 1 /\ ref = None
Next == /\ l <= Len(Trace)
        /\ IF OK(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>) /\ Lenient
        /\ l' = l + 1
        /\ ref' = IF Trace[l].e = "run" THEN Trace[l].d ELSE None
Spec == Init /\ [][Next]_<<l, ref>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
