------------------------------ MODULE GridFill ------------------------------
(***************************************************************************)
(* The proximity grid of a layout, cell by cell.                           *)
(*                                                                         *)
(* A W x H grid of cells, any of which may be missing (outside the         *)
(* container).  A cell holds the distance to the nearest hazard and which  *)
(* hazard that is; distances are those of the maximum norm between cell    *)
(* positions.  The static hazard is the outside.  Dynamic hazards are      *)
(* boxes of positions.                                                     *)
(*                                                                         *)
(* Registering a hazard visits the cells by a boundary fill that starts in *)
(* the middle of the hazard's box grown by one cell (the seed box): cells  *)
(* in the seed box always pass on to their neighbours, others only if they *)
(* or their neighbours may be affected.  A removal can be left pending:    *)
(* the cells then keep the distance to the removed hazard until a flush.   *)
(*                                                                         *)
(* Checked: as soon as no removal is pending every cell is exact, and as   *)
(* long as some are, the others are exact.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, H, Haz, MaxBox

Pos == (1..W) \X (1..H)
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Far == W + H
(* boxes <<x0, y0, x1, y1>>, possibly sticking out of the grid by one *)
Boxes == {b \in (0..W + 1) \X (0..H + 1) \X (0..W + 1) \X (0..H + 1) :
            /\ b[1] <= b[3] /\ b[2] <= b[4] /\ b[3] - b[1] < MaxBox /\ b[4] - b[2] < MaxBox
            /\ b[3] >= 1 /\ b[4] >= 1 /\ b[1] <= W /\ b[2] <= H}
Gap(lo, hi, v) == IF v < lo THEN lo - v ELSE IF v > hi THEN v - hi ELSE 0
Dist(p, b) == Max2(Gap(b[1], b[3], p[1]), Gap(b[2], b[4], p[2]))

VARIABLES box,   \* where each hazard lies
          miss,  \* positions without a cell
          st,    \* distance of each cell to the outside
          cell,  \* position |-> <<distance, hazard>>
          live, pend
vars == <<box, miss, st, cell, live, pend>>
Out == "out"

SetMin(S) == CHOOSE m \in S : \A x \in S : m <= x
Static(p, ms) == SetMin({Far} \cup {Max2(Abs(p[1] - m[1]), Abs(p[2] - m[2])) : m \in ms})
Cells == Pos \ miss
Neighbours(p) == {q \in Pos : q # p /\ Abs(q[1] - p[1]) <= 1 /\ Abs(q[2] - p[2]) <= 1}
Clip(v, n) == Max2(1, Min2(n, v))
SeedBox(b) == <<Clip(b[1] - 1, W), Clip(b[2] - 1, H), Clip(b[3] + 1, W), Clip(b[4] + 1, H)>>
Middle(s) == <<s[1] + (s[3] - s[1]) \div 2, s[2] + (s[4] - s[2]) \div 2>>
InBox(p, s) == p[1] >= s[1] /\ p[1] <= s[3] /\ p[2] >= s[2] /\ p[2] <= s[4]

(* does the fill go on from p, where the new hazard is d away and the cell holds v? *)
GoesOn(p, d, v, s, pending) ==
  \/ InBox(p, s)
  \/ p \in Cells /\ (\/ d < v[1]
                     \/ ~(d - 1 > v[1] + 1)
                     \/ v[2] \in pending)
(* visits the queue (a set: the order does not matter, since a visit only changes its own cell) *)
RECURSIVE Fill(_, _, _, _, _, _, _)
Fill(queue, seen, val, h, b, s, pending) ==
  IF queue = {} THEN val
  ELSE LET nval == [p \in Cells |-> IF p \in queue /\ Dist(p, b) < val[p][1] THEN <<Dist(p, b), h>> ELSE val[p]]
           next == UNION {IF GoesOn(p, Dist(p, b), IF p \in Cells THEN val[p] ELSE <<0, Out>>, s, pending) THEN Neighbours(p) ELSE {} : p \in queue} \ seen
       IN Fill(next, seen \cup next, nval, h, b, s, pending)

(* the nearest of a set of hazards and the outside *)
Exact(p, hs) == SetMin({st[p]} \cup {Dist(p, box[h]) : h \in hs})
Recomputed(p, hs) == LET d == Exact(p, hs) IN
  IF d = st[p] THEN <<d, Out>> ELSE <<d, CHOOSE h \in hs : Dist(p, box[h]) = d>>

Init == /\ box \in [Haz -> Boxes]
        /\ miss \in SUBSET Pos
        /\ st = [p \in Pos \ miss |-> Static(p, miss)]
        /\ cell = [p \in Pos \ miss |-> <<Static(p, miss), Out>>]
        /\ live = {} /\ pend = {}
(* a hazard that comes back is still known under its name: its removal has to be carried out first *)
Register(h) == /\ h \notin live /\ h \notin pend
               /\ LET s == SeedBox(box[h]) m == Middle(s) IN cell' = Fill({m}, {m}, cell, h, box[h], s, pend)
               /\ live' = live \cup {h}
               /\ UNCHANGED <<box, miss, st, pend>>
RemoveNow(h) == /\ h \in live
                /\ live' = live \ {h}
                /\ cell' = [p \in Cells |-> IF cell[p][2] = h THEN Recomputed(p, live') ELSE cell[p]]
                /\ UNCHANGED <<box, miss, st, pend>>
RemoveLater(h) == /\ h \in live
                  /\ live' = live \ {h} /\ pend' = pend \cup {h}
                  /\ UNCHANGED <<box, miss, st, cell>>
Flush == /\ pend # {}
         /\ cell' = [p \in Cells |-> IF cell[p][2] \in pend THEN Recomputed(p, live) ELSE cell[p]]
         /\ pend' = {}
         /\ UNCHANGED <<box, miss, st, live>>
Next == Flush \/ \E h \in Haz : Register(h) \/ RemoveNow(h) \/ RemoveLater(h)
Spec == Init /\ [][Next]_vars

(* cells that do not hold a pending hazard are exact, up to pending hazards being closer *)
CellsExact == \A p \in Cells : cell[p][2] \notin pend => cell[p][1] = Exact(p, live)
CleanExact == pend = {} => \A p \in Cells : cell[p][1] = Exact(p, live)
(* what a dirty cell says is never too far *)
NeverTooFar == \A p \in Cells : cell[p][1] <= Exact(p, live)
=============================================================================
