------------------------------ MODULE GeoTrace ------------------------------
(***************************************************************************)
(* Trace specification of the stateless part of the collision engine.      *)
(*                                                                         *)
(* A trace is a sequence of worlds (the container, its holes and zones and *)
(* the placed items, as the geometry that was handed to the engine) each   *)
(* followed by queries with the answers the real engine gave.  A query is  *)
(* a step of the specification only if its answer is one that the exact    *)
(* geometry of Geo allows.  The engine is specified by what it means, so   *)
(* neither the quadtree nor the fail-fast surrogates appear here.          *)
(***************************************************************************)
EXTENDS Geo, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lenient == "LENIENT" \in DOMAIN IOEnv   \* diagnosis only: report every rejected event
VARIABLES l,     \* next line of the trace
          wl,    \* line of the current world (0: none yet)
          bx     \* bounding boxes of the hazards of the current world
vars == <<l, wl, bx>>

W == Trace[wl]
Hz == W.hz
N == Len(Hz)
K == W.k
ToSet(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(ToSet(s)) = Len(s)

(* verdict of hazard i on polygon P with box bP *)
Verdict(i, P, bP) ==
  IF Hz[i].t = "ext" THEN LeavesX(P, bP, Hz[i].p, bx[i], K, W.x)
  ELSE OverlapX(P, bP, Hz[i].p, bx[i], K, W.x)

(* an answer "yes" needs a hazard that may collide, "no" excludes one that certainly does *)
AnswerOK(ans, rel, P) ==
  LET bP == PolyBox(P) IN
  CASE ans = 1 -> \E i \in rel : Verdict(i, P, bP) # "F"
    [] ans = 0 -> \A i \in rel : Verdict(i, P, bP) # "T"
    [] OTHER -> FALSE

----------------------------------------------------------------------------
(* C01 *)
QueryOK(e) ==
  LET rel == (1..N) \ ToSet(e.ig) IN
  /\ e.sc = e.pc                      \* the fail-fast pre-check changes nothing
     \/ LET bP == PolyBox(e.p) IN \E i \in rel : Verdict(i, e.p, bP) = "U"
  /\ AnswerOK(e.pc, rel, e.p)
  /\ e.sc = e.pc \/ AnswerOK(e.sc, rel, e.p)

(* C03.  The engine does not see beyond its bounds: when the query leaves them, *)
(* its boundary may meet that of a placed item that reaches them only out there. *)
Reaches(b) == 2 * b[1] <= W.b2[1] \/ 2 * b[2] <= W.b2[2] \/ 2 * b[3] >= W.b2[3] \/ 2 * b[4] >= W.b2[4]
Unseen(i, b) == W.hz[i].t = "item" /\ Reaches(b) /\ Reaches(bx[i])
CollectOK(e) ==
  LET pre == e.pre
      got == e.got
      bP == PolyBox(e.p)
      skip == ToSet(e.ig) \cup ToSet(pre)
      new == SubSeq(got, Len(pre) + 1, Len(got))
      V == [i \in 1..N |-> Verdict(i, e.p, bP)]
  IN /\ e.pc \in {0, 1}
     /\ Len(got) >= Len(pre) /\ SubSeq(got, 1, Len(pre)) = pre        \* buffer content kept
     /\ NoDup(new)
     /\ ToSet(new) \cap skip = {}
     /\ \A i \in (1..N) \ skip :
           LET v == V[i] IN IF i \in ToSet(new) THEN v # "F" ELSE v # "T" \/ Unseen(i, bP)
     /\ ToSet(new) \subseteq 1..N

(* C04, engine level: whatever the surrogate reports really collides *)
FailFastOK(e) ==
  LET bP == PolyBox(e.p)
      rel == (1..N) \ ToSet(e.ig)
      new == SubSeq(e.got, Len(e.pre) + 1, Len(e.got))
  IN /\ e.sc \in {0, 1}
     /\ Len(e.got) >= Len(e.pre) /\ SubSeq(e.got, 1, Len(e.pre)) = e.pre
     /\ NoDup(new)
     /\ ToSet(new) \subseteq rel \ ToSet(e.pre)
     /\ e.sc = 1 => \E i \in rel : Verdict(i, e.p, bP) # "F"
     /\ e.sc = 0 => new = <<>>                         \* listing and yes/no agree
     /\ e.sc = 1 => new # <<>> \/ e.pre # <<>>
     /\ \A i \in ToSet(new) : Verdict(i, e.p, bP) # "F"

(* C04, shape level: poles and piers lie inside the shape; logged at 64 units, tolerance 4 units *)
PoleIn(c, P, bP) ==
  LET o == <<c[1], c[2]>> IN
  /\ c[3] >= 0
  /\ PointInB(o, P, bP, 3) # "F"
  /\ DistBoundary(o, P) + 4 >= c[3]
PierIn(s, P, bP) ==
  LET a == s[1]  b == s[2] IN
  /\ PointInB(a, P, bP, 4) # "F" /\ PointInB(b, P, bP, 4) # "F"
  /\ \A t \in 1..7 : PointInB(<<(a[1] * (8 - t) + b[1] * t) \div 8, (a[2] * (8 - t) + b[2] * t) \div 8>>, P, bP, 4) # "F"
  /\ \A i \in 1..Len(P) : ~SegCross(a, b, P[i], P[Nxt(P, i)], 4)
SurrogateOK(e) ==
  LET P == e.p  bP == PolyBox(P) IN
  /\ Len(e.poles) >= 1 /\ Len(e.poles) <= Max2(1, e.cmax)
  /\ e.ffp = Min2(e.cnff, Len(e.poles)) /\ e.ffs = Len(e.piers) /\ Len(e.piers) <= e.cpier
  /\ e.poles[1] = e.poi /\ e.poi[3] > 0
  /\ \A i \in 1..Len(e.poles) : PoleIn(e.poles[i], P, bP)
  /\ \A i \in 1..Len(e.piers) : PierIn(e.piers[i], P, bP)
  \* the circle around all poles contains each of them
  /\ \A i \in 1..Len(e.poles) :
        ISqrt(SqDist(<<e.poles[i][1], e.poles[i][2]>>, <<e.bc[1], e.bc[2]>>)) + e.poles[i][3] <= e.bc[3] + 4

----------------------------------------------------------------------------
(* C05: "definitely" answers of the broad phase; lattice worlds only (K = 0) *)
PtOut(p) == 2 * p[1] < W.b2[1] \/ 2 * p[2] < W.b2[2] \/ 2 * p[1] > W.b2[3] \/ 2 * p[2] > W.b2[4]
PtNearEdge(p) == 2 * p[1] = W.b2[1] \/ 2 * p[2] = W.b2[2] \/ 2 * p[1] = W.b2[3] \/ 2 * p[2] = W.b2[4]
Flip(v) == IF v = "T" THEN "F" ELSE IF v = "F" THEN "T" ELSE "U"
PtVerdict(i, p) ==
  LET v == PointInB(p, Hz[i].p, bx[i], K) IN IF Hz[i].t = "ext" THEN Flip(v) ELSE v
(* does segment ab meet the closed hazard i *)
SegVerdict(i, a, b) ==
  LET P == Hz[i].p
      cr == \E j \in 1..Len(P) : SegCross(a, b, P[j], P[Nxt(P, j)], K)
      ap == \A j \in 1..Len(P) : SegApart(a, b, P[j], P[Nxt(P, j)], K)
      va == PtVerdict(i, a)
      vb == PtVerdict(i, b)
  IN IF va = "T" \/ vb = "T" \/ cr THEN "T"
     ELSE IF ap /\ va = "F" /\ vb = "F" THEN "F" ELSE "U"
(* does the disc meet the closed hazard i; distances are rounded, hence the margin *)
CircVerdict(i, c, r) ==
  LET d == DistBoundary(c, Hz[i].p)
      v == PtVerdict(i, c)
  IN IF v = "T" \/ d + 3 < r THEN "T"
     ELSE IF v = "F" /\ d > r + 3 THEN "F" ELSE "U"
(* does the rectangle meet the closed hazard i *)
RectPoly(b) == << <<b[1], b[2]>>, <<b[3], b[2]>>, <<b[3], b[4]>>, <<b[1], b[4]>> >>
RectVerdict(i, b) ==
  LET R == RectPoly(b) IN
  IF Hz[i].t = "ext" THEN LeavesB(R, b, Hz[i].p, bx[i], K) ELSE OverlapB(R, b, Hz[i].p, bx[i], K)
(* A side of a hazard along the border of the engine's bounds may be placed just outside of them by rounding: such sides are left out. *)
Inward(P) == {j \in 1..Len(P) : LET a == P[j]  b == P[Nxt(P, j)] IN
                ~ \E d \in 1..2 : a[d] = b[d] /\ (2 * a[d] <= W.b2[d] \/ 2 * a[d] >= W.b2[d + 2])}
(* the boundary of hazard i certainly meets the rectangle / segment / disc *)
BdRect(i, b) ==
  LET R == RectPoly(b)  P == Hz[i].p IN
  \E j \in Inward(P) : LET c == P[j]  d == P[Nxt(P, j)] IN
     /\ ~BoxApart(SegBox(c, d), b, 0)
     /\ \/ \E n \in 1..4 : SegCross(R[n], R[Nxt(R, n)], c, d, K)
        \/ PointInB(c, R, b, K) = "T" \/ PointInB(d, R, b, K) = "T"
BdSeg(i, a, b) == LET P == Hz[i].p IN \E j \in Inward(P) : SegCross(a, b, P[j], P[Nxt(P, j)], K)
BdCirc(i, c, r) == LET P == Hz[i].p IN \E j \in Inward(P) : DistSeg(c, P[j], P[Nxt(P, j)]) + 3 < r

(* a definite answer about a set of hazards: yes needs one that may be met, no excludes certain ones *)
Definite(r, v, rel) ==
  CASE r = 1 -> \E i \in rel : v[i] # "F"
    [] r = 0 -> \A i \in rel : v[i] # "T"
    [] r = -1 -> TRUE
    [] OTHER -> FALSE

DefPointOK(e) ==
  IF PtOut(e.x) THEN e.r = -1
  ELSE IF e.gone = 1 THEN e.r \in {0, -1}      \* nothing collides with a hazard that was removed
  ELSE LET v == PtVerdict(e.i, e.x) IN
       CASE e.r = 1 -> v # "F" [] e.r = 0 -> v # "T" [] e.r = -1 -> TRUE [] OTHER -> FALSE
(* leaving the engine's bounds counts as a collision with the outside of the bin *)
DefSegOK(e) ==
  IF PtOut(e.a) \/ PtOut(e.b) THEN e.r = 1
  ELSE Definite(e.r, [i \in 1..N |-> SegVerdict(i, e.a, e.b)], (1..N) \ ToSet(e.off))
DefCircOK(e) ==
  IF PtOut(e.c) THEN e.r = 1
  ELSE Definite(e.r, [i \in 1..N |-> CircVerdict(i, e.c, e.rad)], (1..N) \ ToSet(e.off))

WithinOK(e) ==
  LET new == SubSeq(e.got, Len(e.pre) + 1, Len(e.got))
      v(i) == CASE e.t = "rect" -> RectVerdict(i, e.b)
                [] e.t = "edge" -> SegVerdict(i, e.a, e.b)
                [] e.t = "circ" -> CircVerdict(i, e.c, e.rad)
      must(i) == CASE e.t = "rect" -> BdRect(i, e.b)
                   [] e.t = "edge" -> BdSeg(i, e.a, e.b)
                   [] e.t = "circ" -> BdCirc(i, e.c, e.rad)
      rel == (1..N) \ (ToSet(e.off) \cup ToSet(e.pre))
  IN /\ e.ok = 1
     /\ Len(e.got) >= Len(e.pre) /\ SubSeq(e.got, 1, Len(e.pre)) = e.pre
     /\ NoDup(new) /\ ToSet(new) \subseteq rel
     /\ \A i \in rel : IF i \in ToSet(new) THEN v(i) # "F" ELSE ~must(i)

----------------------------------------------------------------------------
(* C07: which hazards matter to an item of quality q (-1: none stated) *)
Relevant(i, q) == Hz[i].t = "zone" => (q = -1 \/ Hz[i].q < q)
FilterOK(e) ==
  LET exp == {i \in 1..N : \/ e.bin = 1 /\ Hz[i].t # "item"
                           \/ e.cut >= 0 /\ Hz[i].t = "zone" /\ Hz[i].q >= e.cut
                           \/ i \in ToSet(e.ents)}
  IN ToSet(e.got) = exp /\ NoDup(e.got)
QualityOK(e) ==
  LET rel == {i \in 1..N : Relevant(i, e.q)} IN
  /\ ToSet(e.irr) = (1..N) \ rel
  /\ AnswerOK(e.pc, rel, e.p)
(* distance from a grid cell's centre to the nearest relevant hazard (worlds without items) *)
HazDist(i, p) ==
  LET v == PtVerdict(i, p) IN IF v = "T" THEN 0 ELSE DistBoundary(p, Hz[i].p)
ProxOK(e) ==
  LET rel == {i \in 1..N : Relevant(i, e.q)}
      ds == {HazDist(i, e.c) : i \in rel}
      m == CHOOSE d \in ds : \A x \in ds : d <= x
  IN e.d >= 0 /\ Abs(e.d - m) <= 4

----------------------------------------------------------------------------
EventOK(e) ==
  CASE e.e = "q"    -> QueryOK(e)
    [] e.e = "col"  -> CollectOK(e)
    [] e.e = "ff"   -> FailFastOK(e)
    [] e.e = "sur"  -> SurrogateOK(e)
    [] e.e = "dpt"  -> DefPointOK(e)
    [] e.e = "ded"  -> DefSegOK(e)
    [] e.e = "dci"  -> DefCircOK(e)
    [] e.e = "hw"   -> WithinOK(e)
    [] e.e = "filt" -> FilterOK(e)
    [] e.e = "qz"   -> QualityOK(e)
    [] e.e = "hp"   -> ProxOK(e)
    [] OTHER -> FALSE            \* in particular: a panic is never allowed

Init == l = 1 /\ wl = 0 /\ bx = <<>>
World == /\ l <= Len(Trace) /\ Trace[l].e = "world"
         /\ wl' = l /\ l' = l + 1
         /\ bx' = [i \in 1..Len(Trace[l].hz) |-> PolyBox(Trace[l].hz[i].p)]
Query == /\ l <= Len(Trace) /\ Trace[l].e # "world"
         /\ IF EventOK(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l, wl>>) /\ Lenient
         /\ l' = l + 1 /\ UNCHANGED <<wl, bx>>
Next == World \/ Query
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
