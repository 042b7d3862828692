---------------------------- MODULE TransfTrace ----------------------------
(***************************************************************************)
(* Follows recorded programs of transformation operations (C18).           *)
(* "begin" starts a program (x = 1: only quarter turns, which are exact);  *)
(* each "op" names a register and logs where the real transformation in    *)
(* that register sends three probe points, and its decomposition.  "shape" *)
(* logs a shape and what transforming it made of everything stored with    *)
(* it.  Lengths are in 1/64, sines and cosines in 1/F.                     *)
(***************************************************************************)
EXTENDS Rigid, Geo, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Lenient == "LENIENT" \in DOMAIN IOEnv
VARIABLES l, reg, n, x
vars == <<l, reg, n, x>>

Near(a, b, t) == Abs(a - b) <= t
PNear(p, q, t) == Near(p[1], q[1], t) /\ Near(p[2], q[2], t)
Probe == << <<0, 0>>, <<1024, 0>>, <<0, 1024>> >>

Rot(e) == Rotation(e.c, e.s)
Tra(e) == Translation(e.x, e.y)
Result(e) ==
  LET m == reg[e.r] IN
  CASE e.o = "id" -> Id
    [] e.o = "in" -> Inverse(m)
    [] e.o = "de" -> m
    [] e.o = "cp" -> reg[e.k]
    [] e.o \in {"tf", "tk"} -> Then(m, reg[e.k])
    [] e.o = "fr" -> Rot(e)
    [] e.o = "ro" -> Then(m, Rot(e))
    [] e.o = "ft" -> Tra(e)
    [] e.o = "tr" -> Then(m, Tra(e))
    [] e.o = "fd" -> Then(Rot(e), Tra(e))
    [] e.o = "rt" -> Then(Then(m, Rot(e)), Tra(e))
    [] e.o = "rr" -> Then(Then(m, Tra(e)), Rot(e))
    [] e.o = "td" -> Then(m, Then(Rot(e), Tra(e)))
(* rounding of the fixed-point rotations adds up along a program *)
Tol == IF x = 1 THEN 3 ELSE 8 + 4 * n
OpOK(e, m) ==
  /\ \A i \in 1..3 : PNear(e.img[i], Apply(m, Probe[i]), Tol)
  /\ Near(e.dc, m.c, 40 + 20 * n) /\ Near(e.ds, m.s, 40 + 20 * n)
  /\ PNear(<<e.dx, e.dy>>, <<m.x, m.y>>, Tol)
  /\ e.last = 1                                       \* the last row stays 0 0 1
  /\ e.empty = 1 => Near(m.c, F, 40 + 20 * n) /\ PNear(<<m.x, m.y>>, <<0, 0>>, Tol)
  /\ (e.o = "id") => e.empty = 1

----------------------------------------------------------------------------
Mov(e) == Motion(e.c, e.s, e.x, e.y)
ST == 4
PolyAt(P, m, Q) == Len(P) = Len(Q) /\ \A i \in 1..Len(P) : PNear(Apply(m, P[i]), Q[i], ST)
CircAt(a, m, b) == PNear(Apply(m, <<a[1], a[2]>>), <<b[1], b[2]>>, ST) /\ Near(a[3], b[3], 1)
CircsAt(A, m, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : CircAt(A[i], m, B[i])
EdgesAt(A, m, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : PNear(Apply(m, A[i][1]), B[i][1], ST) /\ PNear(Apply(m, A[i][2]), B[i][2], ST)
(* everything stored with a shape: b before, a after motion m *)
Consistent(b, m, a) ==
  /\ PolyAt(b.p, m, a.p)
  /\ \A i \in 1..4 : Near(a.bb[i], PolyBox(a.p)[i], 1)
  /\ a.ar = b.ar /\ Near(a.dia, b.dia, 1)
  /\ CircAt(b.poi, m, a.poi)
  /\ a.hull = b.hull /\ a.nff = b.nff /\ a.cha = b.cha
  /\ CircsAt(b.poles, m, a.poles) /\ EdgesAt(b.piers, m, a.piers)
  /\ CircsAt(b.bc, m, a.bc)
ShapeOK(e) ==
  LET m == Mov(e.m)  k == Mov(e.k) IN
  /\ Consistent(e.base, m, e.clone)                  \* into a copy
  /\ Consistent(e.base, m, e.inpl)                   \* in place
  /\ Consistent(e.base, k, e.buf1) /\ Consistent(e.base, m, e.buf2)   \* into one buffer, twice
  /\ Consistent(e.base, m, e.placed) /\ e.pid = e.id /\ e.pdt = 1 /\ e.pq = e.iq
  /\ Consistent(e.base, Translation(e.ct[1], e.ct[2]), e.centred) /\ e.ct[3] = 1
  /\ PNear(e.cc, <<0, 0>>, 6)
  /\ EdgesAt(<<e.seg>>, m, <<e.segt>>) /\ EdgesAt(<<e.seg>>, m, <<e.segf>>)

----------------------------------------------------------------------------
Init == l = 1 /\ reg = <<>> /\ n = 0 /\ x = 0
Begin == /\ l <= Len(Trace) /\ Trace[l].e = "begin"
         /\ reg' = [i \in 1..Trace[l].nr |-> Id] /\ n' = 0 /\ x' = Trace[l].x /\ l' = l + 1
Op == /\ l <= Len(Trace) /\ Trace[l].e = "op"
      /\ LET m == Result(Trace[l]) IN
         /\ IF OpOK(Trace[l], m) THEN TRUE ELSE PrintT(<<"REJECT", l>>) /\ Lenient
         /\ reg' = [reg EXCEPT ![Trace[l].r] = m]
      /\ n' = n + 1 /\ l' = l + 1 /\ UNCHANGED x
Shape == /\ l <= Len(Trace) /\ Trace[l].e = "shape"
         /\ IF ShapeOK(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>) /\ Lenient
         /\ l' = l + 1 /\ UNCHANGED <<reg, n, x>>
Panic == /\ l <= Len(Trace) /\ Trace[l].e \notin {"begin", "op", "shape"}
         /\ PrintT(<<"REJECT", l>>) /\ Lenient /\ l' = l + 1 /\ UNCHANGED <<reg, n, x>>
Next == Begin \/ Op \/ Shape \/ Panic
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
