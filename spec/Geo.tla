-------------------------------- MODULE Geo --------------------------------
(***************************************************************************)
(* Exact integer geometry used as the oracle of every geometric property.  *)
(*                                                                         *)
(* Points are pairs <<x, y>> of integers (lattice units, or fixed point:   *)
(* round(coordinate * scale)); polygons are sequences of points; segments  *)
(* are given by their two end points.                                      *)
(*                                                                         *)
(* All verdicts are three valued.  "T" and "F" are only given when they    *)
(* hold for every real polygon that rounds to the logged one: the slack k  *)
(* says how coarse the logged coordinates are (k = 0: exact lattice        *)
(* coordinates; k >= 1: each coordinate is off by at most k/2 units).      *)
(* "U" (unknown) is the answer for touching or nearly touching geometry,   *)
(* which the properties leave unspecified.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
X(p) == p[1]
Y(p) == p[2]

RECURSIVE FoldMin(_, _), FoldMax(_, _), SumTo(_, _)
FoldMin(f, n) == IF n = 1 THEN f[1] ELSE Min2(f[n], FoldMin(f, n - 1))
FoldMax(f, n) == IF n = 1 THEN f[1] ELSE Max2(f[n], FoldMax(f, n - 1))
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumSeq(s) == SumTo(s, Len(s))

(* z-component of (b - a) x (c - a) *)
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])

(* Robust side of c with respect to the line a -> b: 1 left, -1 right, 0 unknown *)
Side(a, b, c, k) ==
  LET dx == b[1] - a[1]
      dy == b[2] - a[2]
      ex == c[1] - a[1]
      ey == c[2] - a[2]
      v  == dx * ey - dy * ex
      t  == IF k = 0 THEN 0 ELSE k * (Abs(dx) + Abs(dy) + Abs(ex) + Abs(ey) + 2)
  IN IF v > t THEN 1 ELSE IF v < -t THEN -1 ELSE 0

(* bounding boxes <<xmin, ymin, xmax, ymax>> *)
SegBox(a, b) == <<Min2(a[1], b[1]), Min2(a[2], b[2]), Max2(a[1], b[1]), Max2(a[2], b[2])>>
PolyBox(P) ==
  LET n == Len(P)
      xs == [i \in 1..n |-> P[i][1]]
      ys == [i \in 1..n |-> P[i][2]]
  IN <<FoldMin(xs, n), FoldMin(ys, n), FoldMax(xs, n), FoldMax(ys, n)>>
(* boxes certainly do not meet *)
BoxApart(A, B, k) == \/ A[3] + k < B[1] \/ B[3] + k < A[1]
                     \/ A[4] + k < B[2] \/ B[4] + k < A[2]
PointInBox(p, B) == p[1] >= B[1] /\ p[1] <= B[3] /\ p[2] >= B[2] /\ p[2] <= B[4]
(* A certainly inside B / certainly not inside B (boxes) *)
BoxInside(A, B, k) == A[1] - k >= B[1] /\ A[2] - k >= B[2] /\ A[3] + k <= B[3] /\ A[4] + k <= B[4]
BoxNotInside(A, B, k) == A[1] + k < B[1] \/ A[2] + k < B[2] \/ A[3] - k > B[3] \/ A[4] - k > B[4]

Nxt(P, i) == IF i = Len(P) THEN 1 ELSE i + 1

(* segments ab and cd certainly cross (interiors of both) *)
SegCross(a, b, c, d, k) ==
  /\ ~BoxApart(SegBox(a, b), SegBox(c, d), 0)
  /\ LET s1 == Side(a, b, c, k)
         s2 == Side(a, b, d, k)
     IN /\ s1 * s2 = -1
        /\ Side(c, d, a, k) * Side(c, d, b, k) = -1
(* segments ab and cd certainly have no point in common *)
SegApart(a, b, c, d, k) ==
  \/ BoxApart(SegBox(a, b), SegBox(c, d), k)
  \/ Side(a, b, c, k) * Side(a, b, d, k) = 1
  \/ Side(c, d, a, k) * Side(c, d, b, k) = 1

(* p certainly not on segment ab *)
OffSeg(p, a, b, k) ==
  \/ BoxApart(<<p[1], p[2], p[1], p[2]>>, SegBox(a, b), k)
  \/ Side(a, b, p, k) # 0
OffBoundary(p, P, k) == \A i \in 1..Len(P) : OffSeg(p, P[i], P[Nxt(P, i)], k)

(* does the upward-half-open crossing rule count edge a -> b for the ray from p to the right *)
RayCounts(p, a, b) ==
  /\ (a[2] > p[2]) # (b[2] > p[2])
  /\ LET c == Cross(a, b, p)
     IN IF b[2] > a[2] THEN c > 0 ELSE c < 0
EvenOdd(p, P) == Cardinality({i \in 1..Len(P) : RayCounts(p, P[i], P[Nxt(P, i)])}) % 2 = 1

(* three-valued point-in-polygon; bP is the bounding box of P *)
PointInB(p, P, bP, k) ==
  IF BoxApart(<<p[1], p[2], p[1], p[2]>>, bP, k) THEN "F"
  ELSE IF ~OffBoundary(p, P, k) THEN "U"
  ELSE IF EvenOdd(p, P) THEN "T" ELSE "F"
PointIn(p, P, k) == PointInB(p, P, PolyBox(P), k)

(* boundary of P against boundary of Q, bQ the bounding box of Q *)
BoundaryCrossB(P, Q, bQ, k) ==
  \E i \in 1..Len(P) :
     LET a == P[i]  b == P[Nxt(P, i)] IN
     /\ ~BoxApart(SegBox(a, b), bQ, 0)
     /\ \E j \in 1..Len(Q) : SegCross(a, b, Q[j], Q[Nxt(Q, j)], k)
BoundaryCross(P, Q, k) == BoundaryCrossB(P, Q, PolyBox(Q), k)
BoundaryApartB(P, Q, bQ, k) ==
  \A i \in 1..Len(P) :
     LET a == P[i]  b == P[Nxt(P, i)] IN
     \/ BoxApart(SegBox(a, b), bQ, k)
     \/ \A j \in 1..Len(Q) : SegApart(a, b, Q[j], Q[Nxt(Q, j)], k)
BoundaryApart(P, Q, k) == BoundaryApartB(P, Q, PolyBox(Q), k)

AnyVertexInB(P, Q, bQ, k) == \E i \in 1..Len(P) : PointInB(P[i], Q, bQ, k) = "T"
AnyVertexIn(P, Q, k) == AnyVertexInB(P, Q, PolyBox(Q), k)
AnyVertexOutB(P, Q, bQ, k) == \E i \in 1..Len(P) : PointInB(P[i], Q, bQ, k) = "F"
AnyVertexOut(P, Q, k) == AnyVertexOutB(P, Q, PolyBox(Q), k)

SameSet(P, Q) == Len(P) = Len(Q) /\ {P[i] : i \in 1..Len(P)} = {Q[i] : i \in 1..Len(Q)}

(* Rectilinear lattice polygons are decided exactly, also when sides are aligned: the lines through  *)
(* all vertices cut the plane into cells that lie entirely inside or outside each polygon.           *)
Rectilinear(P) == \A i \in 1..Len(P) : P[i][1] = P[Nxt(P, i)][1] \/ P[i][2] = P[Nxt(P, i)][2]
Doubled(P) == [i \in 1..Len(P) |-> <<2 * P[i][1], 2 * P[i][2]>>]
(* doubled mid points between consecutive distinct values *)
Mids(S) == {a + b : <<a, b>> \in {x \in S \X S : x[1] < x[2] /\ ~\E c \in S : x[1] < c /\ c < x[2]}}
RectCells(P, Q) == Mids({P[i][1] : i \in 1..Len(P)} \cup {Q[i][1] : i \in 1..Len(Q)})
                   \X Mids({P[i][2] : i \in 1..Len(P)} \cup {Q[i][2] : i \in 1..Len(Q)})
RectOverlap(P, Q) == LET P2 == Doubled(P) Q2 == Doubled(Q) IN
   \E c \in RectCells(P, Q) : EvenOdd(c, P2) /\ EvenOdd(c, Q2)
RectLeaves(P, B) == LET P2 == Doubled(P) B2 == Doubled(B) IN
   \E c \in RectCells(P, B) : EvenOdd(c, P2) /\ ~EvenOdd(c, B2)

(* Do the interiors of the simple polygons P and Q meet?  bP, bQ: bounding boxes *)
OverlapB(P, bP, Q, bQ, k) ==
  IF BoxApart(bP, bQ, k) THEN "F"
  ELSE IF BoundaryCrossB(P, Q, bQ, k) THEN "T"
  ELSE IF BoundaryApartB(P, Q, bQ, k)
       THEN LET a == PointInB(P[1], Q, bQ, k)
                b == PointInB(Q[1], P, bP, k)
            IN IF a = "T" \/ b = "T" THEN "T"
               ELSE IF a = "F" /\ b = "F" THEN "F" ELSE "U"
       ELSE IF \/ AnyVertexInB(P, Q, bQ, k)
               \/ AnyVertexInB(Q, P, bP, k)
               \/ SameSet(P, Q)
            THEN "T" ELSE "U"
(* for exactly represented coordinates (x = 1) aligned sides are decided as well: if they do overlap *)
OverlapX(P, bP, Q, bQ, k, x) ==
  LET v == OverlapB(P, bP, Q, bQ, k)
  IN IF v = "U" /\ x = 1 /\ Rectilinear(P) /\ Rectilinear(Q)
     THEN IF RectOverlap(P, Q) THEN "T" ELSE "U" ELSE v
Overlap(P, Q, k) == OverlapB(P, PolyBox(P), Q, PolyBox(Q), k)

(* Does P leave the region B (collide with the exterior of B)? *)
LeavesB(P, bP, B, bB, k) ==
  IF BoxApart(bP, bB, k) THEN "T"
  ELSE IF BoundaryCrossB(P, B, bB, k) THEN "T"
  ELSE IF BoundaryApartB(P, B, bB, k)
       THEN LET a == PointInB(P[1], B, bB, k)
            IN IF a = "F" THEN "T" ELSE IF a = "T" THEN "F" ELSE "U"
       ELSE IF AnyVertexOutB(P, B, bB, k) \/ AnyVertexInB(B, P, bP, k)
            THEN "T" ELSE "U"
LeavesX(P, bP, B, bB, k, x) ==
  LET v == LeavesB(P, bP, B, bB, k)
  IN IF v = "U" /\ x = 1 /\ Rectilinear(P) /\ Rectilinear(B)
     THEN IF RectLeaves(P, B) THEN "T" ELSE "U" ELSE v
Leaves(P, B, k) == LeavesB(P, PolyBox(P), B, PolyBox(B), k)

(* is P covered by Q? "F" only if P certainly has a point outside Q by more than the slack *)
NotCovered(P, Q, k) == AnyVertexOut(P, Q, k) \/ BoundaryCross(P, Q, k)

(* twice the signed area; relative to the first vertex to keep the numbers small *)
Area2(P) ==
  LET n == Len(P) IN
  SumTo([i \in 1..n |-> Cross(P[1], P[i], P[Nxt(P, i)])], n)

SqDist(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])

(* is the polygon simple (certainly not: two non-adjacent edges certainly cross)? *)
CertainlySelfCrossing(P, k) ==
  \E i \in 1..Len(P) : \E j \in 1..Len(P) :
     /\ i < j /\ j # Nxt(P, i) /\ i # Nxt(P, j)
     /\ SegCross(P[i], P[Nxt(P, i)], P[j], P[Nxt(P, j)], k)

(* integer square root (floor) by Newton iteration *)
RECURSIVE ISqrtIt(_, _)
ISqrtIt(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtIt(n, y)
(* starting point: a power of two above the root *)
RECURSIVE Pow2Above(_, _)
Pow2Above(n, p) == IF p >= 46341 THEN 46341 ELSE IF p * p >= n THEN p ELSE Pow2Above(n, 2 * p)
ISqrt(n) == IF n = 0 THEN 0 ELSE ISqrtIt(n, Pow2Above(n, 1))

(* distance from p to segment ab, in units (error < 2); coordinate differences below 2^14 *)
DistSeg(p, a, b) ==
  LET dx == b[1] - a[1]
      dy == b[2] - a[2]
      ex == p[1] - a[1]
      ey == p[2] - a[2]
      dot == ex * dx + ey * dy
      l2 == dx * dx + dy * dy
      cr == Abs(dx * ey - dy * ex)
  IN IF l2 = 0 \/ dot <= 0 THEN ISqrt(SqDist(p, a))
     ELSE IF dot >= l2 THEN ISqrt(SqDist(p, b))
     ELSE IF l2 < 33554432 /\ cr < 268435456 THEN (8 * cr) \div Max2(1, ISqrt(64 * l2))
     ELSE cr \div Max2(1, ISqrt(l2))
DistBoundary(p, P) ==
  LET n == Len(P) IN FoldMin([i \in 1..n |-> DistSeg(p, P[i], P[Nxt(P, i)])], n)
=============================================================================
