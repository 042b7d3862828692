------------------------------- MODULE IoTrace -------------------------------
(***************************************************************************)
(* What input files and exported solutions mean (C12, C13).                *)
(*                                                                         *)
(* "parse": an input file, as written by the generator, and the instance   *)
(* the real parser made of it.  "rt": a solution of a parsed instance, the *)
(* file exported from it, the solution imported from that file, and the    *)
(* file exported again.  Lengths are in 1/64, sines and cosines in 1/2^14, *)
(* numbers that need more than 31 bits are strings.                        *)
(***************************************************************************)
EXTENDS Geo, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lenient == "LENIENT" \in DOMAIN IOEnv
VARIABLE l

Near(a, b, t) == Abs(a - b) <= t
PNear(p, q, t) == Near(p[1], q[1], t) /\ Near(p[2], q[2], t)
At(p, d) == <<p[1] + d[1], p[2] + d[2]>>

(* the same outline: starting vertex and direction do not matter *)
SameOutline(P, d, Q, t) ==
  LET n == Len(P) IN
  /\ Len(Q) = n
  /\ \E o \in 0..n - 1 :
       \/ \A i \in 1..n : PNear(At(P[i], d), Q[((i + o - 1) % n) + 1], t)
       \/ \A i \in 1..n : PNear(At(P[i], d), Q[((2 * n + o - i) % n) + 1], t)

----------------------------------------------------------------------------
(* C13 *)
T == 2
(* tenths of degrees to 1/10000 radians *)
Rad(a) == (a * 174533) \div 10000
(* the same up to full turns *)
SameAngle(a, r) == LET d == (Rad(a) - r) % 62832 IN d <= 4 \/ d >= 62832 - 4
SameAngles(A, B) ==
  /\ \A i \in 1..Len(A) : \E j \in 1..Len(B) : SameAngle(A[i], B[j])
  /\ \A j \in 1..Len(B) : \E i \in 1..Len(A) : SameAngle(A[i], B[j])
(* no orientation listed: only the one in the file *)
Allowed(f) == IF f.o = <<>> THEN <<0>> ELSE f.o

ItemOK(k, f, r, ctr) ==
  /\ r.id = k - 1
  /\ r.d = f.d /\ r.v = f.v
  /\ r.q = f.q /\ r.f = f.q
  /\ r.any = f.any /\ (f.any = 0 => SameAngles(Allowed(f), r.o))
  /\ r.sc = 1
  /\ Len(r.m) = 2 /\ (ctr = 0 => r.m = <<0, 0>>)
  /\ SameOutline(f.p, r.m, r.p, T)

ZonesOf(f, q) == SelectSeq(f.z, LAMBDA z : z[1] = q)
HazOf(r, k) == SelectSeq(r.hz, LAMBDA h : h[1] = k)
(* every outline of A (moved by d) occurs in B and the other way round *)
SameOutlines(A, d, B, t) ==
  /\ Len(A) = Len(B)
  /\ \A i \in 1..Len(A) : \E j \in 1..Len(B) : SameOutline(A[i], d, B[j], t)
  /\ \A j \in 1..Len(B) : \E i \in 1..Len(A) : SameOutline(A[i], d, B[j], t)
Third(s) == [i \in 1..Len(s) |-> s[i][3]]
Second(s) == [i \in 1..Len(s) |-> s[i][2]]
BinOK(k, f, r, ctr) ==
  /\ r.id = k - 1
  /\ r.c = f.c /\ r.s = f.s
  /\ r.cfg = 1
  /\ Len(r.m) = 2 /\ (ctr = 0 => r.m = <<0, 0>>)
  /\ SameOutline(f.o, r.m, r.o, T)
  /\ SameOutlines(f.h, r.m, r.h, T)
  /\ Len(r.z) = Len(f.z)
  /\ \A i \in 1..Len(r.z) : r.z[i][1] = r.z[i][2]
  /\ \A q \in 0..9 : SameOutlines(Second(ZonesOf(f, q)), r.m, Third(SelectSeq(r.z, LAMBDA z : z[1] = q)), T)
  \* what the engine of the bin starts with
  /\ Len(r.hz) = 1 + Len(f.h) + Len(f.z)
  /\ SameOutlines(<<f.o>>, r.m, Third(HazOf(r, "ext")), T)
  /\ SameOutlines(f.h, r.m, Third(HazOf(r, "hole")), T)
  /\ \A q \in 0..9 : SameOutlines(Second(ZonesOf(f, q)), r.m, Third(SelectSeq(r.hz, LAMBDA z : z[1] = "zone" /\ z[2] = q)), T)

ParseOK(e) ==
  /\ e.ok = 1
  /\ LET f == e.file r == e.inst IN
     /\ Len(r.items) = Len(f.items)
     /\ \A i \in 1..Len(f.items) : ItemOK(i, f.items[i], r.items[i], e.ctr)
     /\ Len(r.bins) = Len(f.bins)
     /\ \A i \in 1..Len(f.bins) : BinOK(i, f.bins[i], r.bins[i], e.ctr)
     /\ Near(r.strip, f.strip, 1)

----------------------------------------------------------------------------
(* C12 *)
Q == 16384
(* the exported transformation applied to a point of the input file: rotation, then translation *)
Apply(t, p) == <<(t.c * p[1] - t.s * p[2]) \div Q + t.x, (t.s * p[1] + t.c * p[2]) \div Q + t.y>>
(* where the layout's container lies relative to the container in the file *)
Shift(e, l1) == IF e.strip >= 0 THEN <<l1.box[1], l1.box[2]>>
                ELSE LET b == PolyBox(e.fb[l1.b + 1]) IN <<l1.box[1] - b[1], l1.box[2] - b[2]>>
SamePoints(A, B, t) ==
  /\ Len(A) = Len(B)
  /\ \A i \in 1..Len(A) : \E j \in 1..Len(B) : PNear(A[i], B[j], t)
  /\ \A j \in 1..Len(B) : \E i \in 1..Len(A) : PNear(A[i], B[j], t)
(* exported item x stands for placed item y *)
Stands(e, x, y, d) ==
  /\ x.i = y.i
  /\ LET F == e.fi[x.i + 1]
     IN SamePoints([i \in 1..Len(F) |-> At(Apply(x, F[i]), d)], y.p, 4)
Both(A, B, R(_, _)) ==
  /\ Len(A) = Len(B)
  /\ \A i \in 1..Len(A) : \E j \in 1..Len(B) : R(A[i], B[j])
  /\ \A j \in 1..Len(B) : \E i \in 1..Len(A) : R(A[i], B[j])
ExportOK(e, js, s) ==
  /\ Len(js.lay) = Len(s.lay)
  /\ Near(js.us, s.us, 1)
  /\ \A k \in 1..Len(s.lay) :
       LET j == js.lay[k] y == s.lay[k] d == Shift(e, y) IN
       /\ IF e.strip >= 0
          THEN j.b = -1 /\ Near(j.w, y.box[3] - y.box[1], 2) /\ Near(j.h, e.strip, 1) /\ Near(y.box[4] - y.box[2], e.strip, 2)
          ELSE j.b = y.b
       /\ Near(j.us, y.us, 1)
       /\ Both(j.it, y.it, LAMBDA a, b : Stands(e, a, b, d))
(* the imported solution: the same containers, placements and counts *)
ImportOK(e, s, r) ==
  /\ Len(r.lay) = Len(s.lay)
  /\ r.pq = s.pq /\ r.tq = s.tq /\ r.bq = s.bq
  /\ Near(r.us, s.us, 3)
  /\ \A k \in 1..Len(s.lay) :
       LET a == s.lay[k] b == r.lay[k] da == Shift(e, a) db == Shift(e, b) IN
       /\ a.b = b.b
       /\ Near(a.box[3] - a.box[1], b.box[3] - b.box[1], 2) /\ Near(a.box[4] - a.box[2], b.box[4] - b.box[2], 2)
       /\ Near(a.us, b.us, 3)
       /\ Both(a.it, b.it, LAMBDA x, y : x.i = y.i /\ SamePoints([i \in 1..Len(x.p) |-> At(x.p[i], <<db[1] - da[1], db[2] - da[2]>>)], y.p, 3))
SameFile(f, g) ==
  /\ Len(f.lay) = Len(g.lay)
  /\ Near(f.us, g.us, 3)
  /\ \A k \in 1..Len(f.lay) :
       LET a == f.lay[k] b == g.lay[k] IN
       /\ a.b = b.b /\ Near(a.w, b.w, 1) /\ Near(a.h, b.h, 1) /\ Near(a.us, b.us, 3)
       /\ Both(a.it, b.it, LAMBDA x, y : x.i = y.i /\ Near(x.c, y.c, 8) /\ Near(x.s, y.s, 8) /\ Near(x.x, y.x, 3) /\ Near(x.y, y.y, 3))
RoundTripOK(e) ==
  /\ e.ok = 1
  /\ ExportOK(e, e.js1, e.sol1)
  /\ ImportOK(e, e.sol1, e.sol2)
  /\ ExportOK(e, e.js2, e.sol2)
  /\ SameFile(e.js1, e.js2)

----------------------------------------------------------------------------
OK(e) == CASE e.e = "parse" -> ParseOK(e) [] e.e = "rt" -> RoundTripOK(e) [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF OK(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>) /\ Lenient
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
