------------------------------- MODULE SvgTrace -------------------------------
(***************************************************************************)
(* The drawing of a layout (C20).                                          *)
(*                                                                         *)
(* "svg": the polygons found when the document is rendered (references     *)
(* resolved, transformations applied), in drawing order, and what the      *)
(* layout consists of, in the coordinates of the input file.  Lengths are  *)
(* in 1/64.  q, g, s: options (quadtree, grid, surrogates).                *)
(***************************************************************************)
EXTENDS Geo, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lenient == "LENIENT" \in DOMAIN IOEnv
VARIABLE l

T == 4
Near(a, b, t) == Abs(a - b) <= t
PNear(p, q, t) == Near(p[1], q[1], t) /\ Near(p[2], q[2], t)
(* the same outline: starting vertex and direction do not matter *)
Same(P, Q, t) ==
  LET n == Len(P) IN
  /\ Len(Q) = n
  /\ \E o \in 0..n - 1 :
       \/ \A i \in 1..n : PNear(P[i], Q[((i + o - 1) % n) + 1], t)
       \/ \A i \in 1..n : PNear(P[i], Q[((2 * n + o - i) % n) + 1], t)
Count(P, S, t) == Cardinality({i \in 1..Len(S) : Same(P, S[i], t)})

Wanted(e) == <<e.outer>> \o e.holes \o e.zones \o e.items
(* every part of the layout is drawn, exactly as often as it occurs; and nothing else is drawn *)
DrawnOK(e) ==
  LET W == Wanted(e) IN
  /\ Len(e.shapes) = Len(W)
  /\ \A i \in 1..Len(W) : Count(W[i], e.shapes, T) >= Count(W[i], W, 0)
  /\ \A i \in 1..Len(e.shapes) : Count(e.shapes[i], W, T) >= 1
(* the container may not be painted over anything *)
OrderOK(e) == Same(e.shapes[1], e.outer, T)
(* the view box covers the container and is not absurdly larger *)
ViewOK(e) ==
  LET b == PolyBox(e.outer) w == b[3] - b[1] h == b[4] - b[2] IN
  /\ Len(e.vb) = 4
  /\ e.vb[1] <= b[1] /\ e.vb[2] <= b[2]
  /\ e.vb[1] + e.vb[3] >= b[3] /\ e.vb[2] + e.vb[4] >= b[4]
  /\ e.vb[3] <= 2 * w /\ e.vb[4] <= 2 * h

----------------------------------------------------------------------------
(* the optional layers *)
(* centre of a drawn circle certainly inside, circle not reaching over the outline *)
InItem(c, P) == /\ PointIn(<<c[1], c[2]>>, P, 1) # "F"
                /\ c[3] <= DistBoundary(<<c[1], c[2]>>, P) + 6
SurrOK(e) ==
  IF e.s = 0 THEN e.surr = <<>>
  ELSE /\ \A i \in 1..Len(e.surr) : \E j \in 1..Len(e.items) : InItem(e.surr[i], e.items[j])
       /\ \A j \in 1..Len(e.items) : Cardinality({i \in 1..Len(e.surr) : InItem(e.surr[i], e.items[j])}) >= e.poles[j]
Hazards(e) == e.holes \o e.zones \o e.items
(* a leaf drawn as entirely blocked: its centre lies outside the container or in something *)
RedOK(e, c) ==
  LET b == PolyBox(c) m == <<(b[1] + b[3]) \div 2, (b[2] + b[4]) \div 2>> IN
  \/ PointIn(m, e.outer, 2) # "T"
  \/ \E i \in 1..Len(Hazards(e)) : PointIn(m, Hazards(e)[i], 2) # "F"
(* a leaf drawn as free *)
GreenOK(e, c) ==
  /\ Leaves(c, e.outer, 2) # "T"
  /\ \A i \in 1..Len(Hazards(e)) : Overlap(c, Hazards(e)[i], 2) # "T"
(* a leaf drawn as partly blocked *)
GreyOK(e, c) ==
  ~ /\ Leaves(c, e.outer, 2) = "F"
    /\ \A i \in 1..Len(Hazards(e)) : Overlap(c, Hazards(e)[i], 2) = "F"
(* the leaves are rectangles that tile a region around the container *)
RectCell(c) == /\ Len(c) \in {4, 5}
               /\ LET b == PolyBox(c) IN \A v \in {<<b[1], b[2]>>, <<b[3], b[2]>>, <<b[3], b[4]>>, <<b[1], b[4]>>} : \E i \in 1..Len(c) : c[i] = v
CellArea(c) == LET b == PolyBox(c) IN (b[3] - b[1]) * (b[4] - b[2])
TilesOK(e) ==
  LET all == e.red \o e.green \o e.grey
      n == Len(all)
      bs == [i \in 1..n |-> PolyBox(all[i])]
      B == <<FoldMin([i \in 1..n |-> bs[i][1]], n), FoldMin([i \in 1..n |-> bs[i][2]], n), FoldMax([i \in 1..n |-> bs[i][3]], n), FoldMax([i \in 1..n |-> bs[i][4]], n)>>
      total == (B[3] - B[1]) * (B[4] - B[2])
      sum == SumSeq([i \in 1..n |-> CellArea(all[i])])
  IN /\ \A i \in 1..n : RectCell(all[i])
     /\ Abs(total - sum) <= SumSeq([i \in 1..n |-> 2 * (bs[i][3] - bs[i][1] + bs[i][4] - bs[i][2] + 2)])
     /\ LET o == PolyBox(e.outer) IN B[1] <= o[1] + 2 /\ B[2] <= o[2] + 2 /\ B[3] >= o[3] - 2 /\ B[4] >= o[4] - 2
TreeOK(e) ==
  IF e.q = 0 THEN e.red = <<>> /\ e.green = <<>> /\ e.grey = <<>>
  ELSE /\ \A i \in 1..Len(e.red) : RedOK(e, e.red[i])
       /\ \A i \in 1..Len(e.green) : GreenOK(e, e.green[i])
       /\ \A i \in 1..Len(e.grey) : GreyOK(e, e.grey[i])
       /\ Len(e.red) + Len(e.green) + Len(e.grey) > 0
       /\ TilesOK(e)
(* a cell of the proximity grid is marked in or next to the container; the ring around it says how far *)
(* the nearest hazard is, so it reaches over no outline of the container, its holes and its zones      *)
DotOK(e, c) ==
  LET b == PolyBox(e.outer) m == Max2(b[3] - b[1], b[4] - b[2]) IN
  PointInBox(<<c[1], c[2]>>, <<b[1] - m, b[2] - m, b[3] + m, b[4] + m>>)
RingOK(e, c) ==
  LET p == <<c[1], c[2]>> IN
  /\ DotOK(e, c)
  /\ c[3] > 0 => /\ PointIn(p, e.outer, 2) # "F"
                 /\ c[3] <= DistBoundary(p, e.outer) + 6
                 /\ \A i \in 1..Len(e.holes) : PointIn(p, e.holes[i], 2) # "T" /\ c[3] <= DistBoundary(p, e.holes[i]) + 6
                 /\ \A i \in 1..Len(e.zones) : PointIn(p, e.zones[i], 2) # "T" /\ c[3] <= DistBoundary(p, e.zones[i]) + 6
GridOK(e) == IF e.g = 0 THEN e.ndots = 0
             ELSE /\ e.ndots > 0
                  /\ \A i \in 1..Len(e.dots) : DotOK(e, e.dots[i])
                  /\ \A i \in 1..Len(e.rings) : RingOK(e, e.rings[i])

SvgOK(e) ==
  /\ e.ok = 1
  /\ DrawnOK(e) /\ OrderOK(e) /\ ViewOK(e)
  /\ SurrOK(e) /\ TreeOK(e) /\ GridOK(e)
  /\ e.s = 0 => e.lines = 0

OK(e) == CASE e.e = "svg" -> SvgOK(e) [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF OK(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>) /\ Lenient
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
