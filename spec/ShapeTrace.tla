----------------------------- MODULE ShapeTrace -----------------------------
(***************************************************************************)
(* What the geometric primitives mean (C17) and what simplification may do *)
(* to a polygon (C14).  Every event holds exact inputs (multiples of 1/4,  *)
(* logged in 1/64) and the answers of the real code, rounded to 1/64.      *)
(***************************************************************************)
EXTENDS Geo, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lenient == "LENIENT" \in DOMAIN IOEnv
VARIABLE l

T == 3      \* tolerance of rounded lengths, in units
Near(a, b, t) == Abs(a - b) <= t
PNear(p, q, t) == Near(p[1], q[1], t) /\ Near(p[2], q[2], t)
BNear(A, B, t) == \A i \in 1..4 : Near(A[i], B[i], t)
ToSet(s) == {s[i] : i \in 1..Len(s)}
Dist(p, q) == ISqrt(SqDist(p, q))
(* a rounded length and its rounded square belong together *)
Square(d, q) == d >= 0 /\ q >= 0 /\ Near(ISqrt(q), d, T)
(* yes/no answer against a three-valued verdict *)
Says(a, v) == a \in {0, 1} /\ (a = 1 => v # "F") /\ (a = 0 => v # "T")

RectPoly(b) == << <<b[1], b[2]>>, <<b[3], b[2]>>, <<b[3], b[4]>>, <<b[1], b[4]>> >>
RectDist(b, p) ==
  LET dx == Max2(0, Max2(b[1] - p[1], p[1] - b[3]))
      dy == Max2(0, Max2(b[2] - p[2], p[2] - b[4]))
  IN ISqrt(dx * dx + dy * dy)
StrictIn(p, b) == p[1] > b[1] /\ p[1] < b[3] /\ p[2] > b[2] /\ p[2] < b[4]
InSub(A, B) == A[1] >= B[1] /\ A[2] >= B[2] /\ A[3] <= B[3] /\ A[4] <= B[4]   \* A within B

(* the "almost" predicates forgive an error relative to the absolute coordinates *)
Fuzz(A, B) == LET S == {Abs(A[i]) : i \in 1..Len(A)} \cup {Abs(B[i]) : i \in 1..Len(B)}
             IN (CHOOSE x \in S : \A y \in S : y <= x) \div 2500
----------------------------------------------------------------------------
(* rectangles *)
RectRectOK(e) ==
  LET A == e.a  B == e.b
      apart == BoxApart(A, B, 0)
      open == Max2(A[1], B[1]) < Min2(A[3], B[3]) /\ Max2(A[2], B[2]) < Min2(A[4], B[4])
      exp == IF apart THEN {"D"}
             ELSE IF A = B THEN {"S", "E"}
             ELSE IF InSub(B, A) THEN {"S"}
             ELSE IF InSub(A, B) THEN {"E"}
             ELSE IF open THEN {"I"} ELSE {"I", "D"}
      v == IF apart THEN "F" ELSE IF open THEN "T" ELSE "U"
      fz == Fuzz(A, B)
  IN /\ e.rel \in exp /\ (fz <= 4 => e.arel \in exp)
     /\ Says(e.col, v) /\ Says(e.acol, IF fz > 4 /\ v = "F" /\ ~BoxApart(A, B, fz) THEN "U" ELSE v)
     /\ fz > 4 => /\ (open => e.arel # "D") /\ (BoxApart(A, B, fz) => e.arel = "D")
     /\ IF open THEN e.int = <<Max2(A[1], B[1]), Max2(A[2], B[2]), Min2(A[3], B[3]), Min2(A[4], B[4])>> ELSE e.int = <<>>
     /\ e.bnd = <<Min2(A[1], B[1]), Min2(A[2], B[2]), Max2(A[3], B[3]), Max2(A[4], B[4])>>

RectOK(e) ==
  LET A == e.a
      w == A[3] - A[1]
      h == A[4] - A[2]
      m == Max2(w, h)
      cx == (A[1] + A[3]) \div 2
      cy == (A[2] + A[4]) \div 2
      Quads == {<<A[1], A[2], cx, cy>>, <<cx, A[2], A[3], cy>>, <<A[1], cy, cx, A[4]>>, <<cx, cy, A[3], A[4]>>}
      C == << <<A[3], A[4]>>, <<A[1], A[4]>>, <<A[1], A[2]>>, <<A[3], A[2]>> >>
  IN /\ BNear(e.sq, <<cx - m \div 2, cy - m \div 2, cx + m \div 2, cy + m \div 2>>, 2)
     /\ BNear(e.sc, <<cx - (w * e.f4) \div 8, cy - (h * e.f4) \div 8, cx + (w * e.f4) \div 8, cy + (h * e.f4) \div 8>>, 2)
     \* the quadrants tile the rectangle, in the order of the Cartesian quadrants, like the corners
     /\ Len(e.qs) = 4 /\ Len(e.cs) = 4 /\ Len(e.es) = 4
     /\ BNear(e.qs[1], <<cx, cy, A[3], A[4]>>, 1) /\ BNear(e.qs[2], <<A[1], cy, cx, A[4]>>, 1)
     /\ BNear(e.qs[3], <<A[1], A[2], cx, cy>>, 1) /\ BNear(e.qs[4], <<cx, A[2], A[3], cy>>, 1)
     /\ e.cs = C /\ e.xy = C
     /\ Len(e.pg) = 4 /\ {e.pg[i] : i \in 1..4} = {C[i] : i \in 1..4} /\ Rectilinear(e.pg)
     /\ \A i \in 1..4 : e.es[i] = <<C[i], C[(i % 4) + 1]>> \/ e.es[i] = <<C[(i % 4) + 1], C[i]>>
     /\ e.w = w /\ e.h = h /\ PNear(e.cen, <<cx, cy>>, 1)
     /\ Near(e.ar, (w * h) \div 64, T) /\ Near(e.dia, ISqrt(w * w + h * h), T) /\ e.bb = A

BorderDist(b, p) ==
  IF StrictIn(p, b) \/ PointInBox(p, b) THEN Min2(Min2(p[1] - b[1], b[3] - p[1]), Min2(p[2] - b[2], b[4] - p[2]))
  ELSE RectDist(b, p)
(* the boundary distance answers: both forms agree with distance bd; position decided by v *)
Border(e, v, bd, t) ==
  /\ Says(e.bp, v) /\ Says(e.qp, v)
  /\ Near(e.bd, bd, t) /\ Square(e.bd, e.qd)
RectPointOK(e) ==
  LET v == IF StrictIn(e.p, e.a) THEN "T" ELSE IF PointInBox(e.p, e.a) THEN "U" ELSE "F" IN
  /\ Says(e.col, v)
  /\ LET fz == Fuzz(e.a, e.p) IN Says(e.acol, IF fz > 4 /\ v = "F" /\ RectDist(e.a, e.p) <= 2 * fz THEN "U" ELSE v)
  /\ Near(e.d, RectDist(e.a, e.p), T) /\ Square(e.d, e.q)
  /\ Border(e, v, BorderDist(e.a, e.p), T)

SegRect(s, b) ==
  LET R == RectPoly(b) IN
  IF StrictIn(s[1], b) \/ StrictIn(s[2], b) \/ \E j \in 1..4 : SegCross(s[1], s[2], R[j], R[Nxt(R, j)], 0) THEN "T"
  ELSE IF /\ \A j \in 1..4 : SegApart(s[1], s[2], R[j], R[Nxt(R, j)], 0)
          /\ ~PointInBox(s[1], b) /\ ~PointInBox(s[2], b) THEN "F"
  ELSE "U"
RectEdgeOK(e) == LET v == SegRect(e.s, e.a) IN Says(e.col, v) /\ Says(e.col2, v)

----------------------------------------------------------------------------
(* segments *)
SegSeg(a, b) == IF SegCross(a[1], a[2], b[1], b[2], 0) THEN "T" ELSE IF SegApart(a[1], a[2], b[1], b[2], 0) THEN "F" ELSE "U"
EdgeEdgeOK(e) ==
  LET v == SegSeg(e.a, e.b) IN
  /\ Says(e.col, v) /\ Says(e.col2, v)
  /\ Says(IF e.at = <<>> THEN 0 ELSE 1, v)
  /\ e.at # <<>> => /\ DistSeg(e.at, e.a[1], e.a[2]) <= T
                    /\ DistSeg(e.at, e.b[1], e.b[2]) <= T
EdgePointOK(e) ==
  LET d == DistSeg(e.p, e.a[1], e.a[2]) IN
  /\ Near(e.d, d, T) /\ Square(e.d, e.q)
  /\ Near(e.bd, d, T) /\ Square(e.bd, e.qd) /\ e.bp = 0 /\ e.qp = 0
  /\ DistSeg(e.cp, e.a[1], e.a[2]) <= T /\ Near(Dist(e.cp, e.p), d, T)
(* q is p moved by d along the direction of the vector from a to b (which has length len) *)
Moved(q, p, a, b, d, len) ==
  /\ Near(Dist(q, p), d, T)
  /\ LET dx == b[1] - a[1]  dy == b[2] - a[2]
         ex == q[1] - p[1]  ey == q[2] - p[2]
     IN /\ Abs(dx * ey - dy * ex) <= T * (len + Abs(ex) + Abs(ey) + 4)
        /\ d > T => dx * ex + dy * ey > 0
EdgeOK(e) ==
  LET a == e.a[1]  b == e.a[2]
      len == Dist(a, b)
      cx == (a[1] + b[1]) \div 2
      cy == (a[2] + b[2]) \div 2
  IN /\ PNear(e.fr[2], b, 1) /\ Moved(e.fr[1], a, b, a, e.d, len)
     /\ PNear(e.bk[1], a, 1) /\ Moved(e.bk[2], b, a, b, e.d, len)
     /\ PNear(e.sc[1], <<cx + ((a[1] - b[1]) * e.f4) \div 8, cy + ((a[2] - b[2]) * e.f4) \div 8>>, T)
     /\ PNear(e.sc[2], <<cx + ((b[1] - a[1]) * e.f4) \div 8, cy + ((b[2] - a[2]) * e.f4) \div 8>>, T)
     /\ e.rv = <<b, a>> /\ Near(e.len, len, T) /\ PNear(e.cen, <<cx, cy>>, 1)
     /\ e.bb = SegBox(a, b) /\ e.mm = SegBox(a, b)

----------------------------------------------------------------------------
(* circles <<x, y, r>> *)
O(c) == <<c[1], c[2]>>
(* three-valued d < r *)
Less(d, r) == IF d + 2 < r THEN "T" ELSE IF d > r + 2 THEN "F" ELSE "U"
CircCircOK(e) ==
  LET d == Dist(O(e.a), O(e.b))
      s == e.a[3] + e.b[3]
      v == Less(d, s)
  IN /\ Says(e.col, v)
     /\ Near(e.d, Max2(0, d - s), T) /\ Near(ISqrt(e.q), Max2(0, d - s), T)
     /\ Says(e.bp, v) /\ Says(e.qp, v) /\ Near(e.bd, Abs(d - s), T) /\ Square(e.bd, e.qd)
     \* area in quarters: 4 * pi * r^2 with r in 1/64
     /\ LET r2 == e.a[3] * e.a[3] IN Near(e.ar, (r2 \div 1024) * 3 + ((r2 \div 64) * 1416) \div 160000, 3 + e.ar \div 500)
     /\ e.dia = 2 * e.a[3] /\ e.cen = O(e.a)
     /\ e.bb = <<e.a[1] - e.a[3], e.a[2] - e.a[3], e.a[1] + e.a[3], e.a[2] + e.a[3]>>
CircEdgeOK(e) ==
  LET d == DistSeg(O(e.a), e.s[1], e.s[2])
      v == Less(d, e.a[3])
  IN /\ Says(e.col, v)
     /\ Near(e.d, Max2(0, d - e.a[3]), T) /\ Near(ISqrt(e.q), Max2(0, d - e.a[3]), T)
     /\ Says(e.bp, v) /\ Says(e.qp, v) /\ Near(e.bd, Abs(d - e.a[3]), T) /\ Square(e.bd, e.qd)
CircOtherOK(e) ==
  LET d == Dist(O(e.a), e.p)
      v == Less(d, e.a[3])
  IN /\ Says(e.colp, v) /\ Says(e.colp2, v)
     /\ Says(e.colr, Less(RectDist(e.r, O(e.a)), e.a[3]))
     /\ Near(e.d, Max2(0, d - e.a[3]), T) /\ Near(ISqrt(e.q), Max2(0, d - e.a[3]), T)
     /\ Border(e, v, Abs(d - e.a[3]), T)
     /\ Near(e.pd, d, T) /\ Square(e.pd, e.pq)
(* contains every circle; touches the border from inside at least once (cannot simply be huge) *)
BoundingCircleOK(e) ==
  LET gap(i) == e.b[3] - (Dist(O(e.b), O(e.cs[i])) + e.cs[i][3]) IN
  /\ \A i \in 1..Len(e.cs) : gap(i) >= -4
  /\ \E i \in 1..Len(e.cs) : gap(i) <= 6

----------------------------------------------------------------------------
(* polygons; areas are logged in 1/32 *)
SameOutline(P, Q, t) ==
  LET n == Len(P) IN
  /\ Len(Q) = n
  /\ \E o \in 0..n - 1 :
       \/ \A i \in 1..n : PNear(P[i], Q[((i + o - 1) % n) + 1], t)
       \/ \A i \in 1..n : PNear(P[i], Q[((2 * n + o - i) % n) + 1], t)
(* in whole quarter units, exact: the inputs are multiples of 16 *)
Quarter(P) == [i \in 1..Len(P) |-> <<P[i][1] \div 16, P[i][2] \div 16>>]
FurthestSq(P) == LET D == {SqDist(P[i], P[j]) : i, j \in 1..Len(P)} IN CHOOSE d \in D : \A x \in D : x <= d
(* six times the signed area moments relative to the first vertex (quarter units) *)
MomX(P) == LET n == Len(P) IN SumTo([i \in 1..n |-> (P[i][1] + P[Nxt(P, i)][1] - 2 * P[1][1]) * Cross(P[1], P[i], P[Nxt(P, i)])], n)
MomY(P) == LET n == Len(P) IN SumTo([i \in 1..n |-> (P[i][2] + P[Nxt(P, i)][2] - 2 * P[1][2]) * Cross(P[1], P[i], P[Nxt(P, i)])], n)
(* round-ish a*16/b for possibly large a *)
Frac16(a, b) == LET s == IF (a < 0) = (b < 0) THEN 1 ELSE -1
                    x == Abs(a)  y == Abs(b)
                IN s * (16 * (x \div y) + (16 * (x % y)) \div y)
MeasuresOK(m, P) ==
  LET Pq == Quarter(P)
      a2 == Area2(Pq)                      \* twice the signed area, in 1/16 square units
      bb == PolyBox(P)
      ct == 4 + 4000 \div Abs(a2)           \* float rounding grows for thin shapes
      cen == <<P[1][1] + Frac16(MomX(Pq), 3 * a2), P[1][2] + Frac16(MomY(Pq), 3 * a2)>>
      poi == O(m.poi)
  IN /\ Near(m.ar, Abs(a2), 1 + Abs(a2) \div 5000) /\ Near(m.sa, Abs(a2), 1 + Abs(a2) \div 5000)  \* stored counter-clockwise
     /\ m.bb = bb
     /\ SameOutline(P, m.pts, 0)
     /\ PNear(m.cen, cen, ct)
     /\ Near(m.dia, ISqrt(256 * FurthestSq(Pq)), T)
     \* the widest inner circle: inside, and no sample point offers more room
     /\ m.poi[3] > 0
     /\ PointInB(poi, P, bb, 2) # "F" /\ Near(DistBoundary(poi, P), m.poi[3], 4)
     /\ \A i \in 1..6 : \A j \in 1..6 :
          LET q == <<bb[1] + (i * (bb[3] - bb[1])) \div 7, bb[2] + (j * (bb[4] - bb[2])) \div 7>> IN
          (EvenOdd(q, P) /\ OffBoundary(q, P, 0)) => DistBoundary(q, P) <= m.poi[3] + 6
(* H is the hull of the points S: corners of S, in order, nothing to the right of any side *)
HullOK(H, S) ==
  LET n == Len(H) IN
  IF \A a, b, c \in S : Cross(a, b, c) = 0 THEN \A p \in ToSet(H) : p \in S       \* degenerate: nothing required
  ELSE /\ n >= 3 /\ ToSet(H) \subseteq S
       /\ Cardinality(ToSet(H)) = n
       /\ \/ \A i \in 1..n : \A p \in S : Cross(H[i], H[Nxt(H, i)], p) >= 0
          \/ \A i \in 1..n : \A p \in S : Cross(H[i], H[Nxt(H, i)], p) <= 0
PolyOK(e) ==
  /\ e.n = Len(e.p)
  /\ MeasuresOK(e.m, e.p)
  /\ MeasuresOK(e.m2, e.p)
  /\ Len(e.es) = e.n /\ \A i \in 1..e.n : e.es[i] = <<e.m.pts[i], e.m.pts[Nxt(e.m.pts, i)]>>
  /\ HullOK(e.hi, ToSet(e.p))
  /\ HullOK(e.two, ToSet(e.p) \cup ToSet(e.q))
  /\ HullOK(e.ch, ToSet(e.cloud))
PolyPointOK(e) ==
  LET bb == PolyBox(e.P)
      v == PointInB(e.p, e.P, bb, 0)
      d == DistBoundary(e.p, e.P)
  IN /\ Says(e.col, v) /\ Says(e.col2, v)
     /\ v = "T" => e.d = 0 /\ e.q = 0
     /\ v # "T" => Near(e.d, d, T) /\ Square(e.d, e.q)
     /\ Border(e, v, d, T)

----------------------------------------------------------------------------
(* C14: P simplified to Q; coordinates of Q are rounded, hence the slack *)
K == 2
Perim(P) == LET n == Len(P) IN SumTo([i \in 1..n |-> Abs(P[i][1] - P[Nxt(P, i)][1]) + Abs(P[i][2] - P[Nxt(P, i)][2])], n)
(* A certainly has a part outside B *)
SticksOut(A, B) ==
  \/ AnyVertexOut(A, B, K) \/ BoundaryCross(A, B, K) \/ AnyVertexIn(B, A, K)
SimplifyOK(e) ==
  LET P == e.P  Q == e.Q
      a == Abs(Area2(P))
      q == Area2(Q)
      slack == 4 * Perim(P) + a \div 1000
  IN /\ Len(Q) >= 3 /\ Len(Q) <= Len(P)
     /\ ~CertainlySelfCrossing(Q, K)
     /\ q > 0
     /\ IF e.inf = 1 THEN ~SticksOut(P, Q) ELSE ~SticksOut(Q, P)
     /\ Abs(q - a) <= (a \div 1000) * e.tol + slack
     \* the stored area belongs to the simplified outline (area in 1/32)
     /\ Near(e.ar, q \div 256, 2 + slack \div 256)

----------------------------------------------------------------------------
EventOK(e) ==
  CASE e.e = "rr" -> RectRectOK(e)
    [] e.e = "r1" -> RectOK(e)
    [] e.e = "rp" -> RectPointOK(e)
    [] e.e = "re" -> RectEdgeOK(e)
    [] e.e = "ee" -> EdgeEdgeOK(e)
    [] e.e = "ep" -> EdgePointOK(e)
    [] e.e = "e1" -> EdgeOK(e)
    [] e.e = "cc" -> CircCircOK(e)
    [] e.e = "ce" -> CircEdgeOK(e)
    [] e.e = "cx" -> CircOtherOK(e)
    [] e.e = "cb" -> BoundingCircleOK(e)
    [] e.e = "poly" -> PolyOK(e)
    [] e.e = "qp" -> PolyPointOK(e)
    [] e.e = "simp" -> SimplifyOK(e)
    [] OTHER -> FALSE

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF EventOK(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>) /\ Lenient
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
