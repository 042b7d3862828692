------------------------------ MODULE RigidGen ------------------------------
(* Programs over registers that hold motions: every public way of making a  *)
(* transformation.  Checked exhaustively for the group laws (exact: F = 1)   *)
(* and used with -simulate as the source of programs for the real code.      *)
EXTENDS Rigid, TLC, Json
CONSTANTS NR, MaxLen, Gen, B
VARIABLES reg, hist
vars == <<reg, hist>>
R == 1..NR
Quarter == <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>
Rot(q) == Rotation(Quarter[q + 1][1], Quarter[q + 1][2])
D == -1..1
Log(o) == IF Gen THEN hist' = Append(hist, o) ELSE UNCHANGED hist
Set(r, m, o) == reg' = [reg EXCEPT ![r] = m] /\ Log(o)

Init == reg = [r \in R |-> Id] /\ hist = <<>>
Step == \E r \in R :
  \/ Set(r, Id, [o |-> "id", r |-> r])
  \/ Set(r, Inverse(reg[r]), [o |-> "in", r |-> r])
  \/ Set(r, reg[r], [o |-> "de", r |-> r])
  \/ \E k \in R : Set(r, reg[k], [o |-> "cp", r |-> r, k |-> k])
  \/ \E k \in R : Set(r, Then(reg[r], reg[k]), [o |-> "tf", r |-> r, k |-> k])
  \/ \E k \in R : Set(r, Then(reg[r], reg[k]), [o |-> "tk", r |-> r, k |-> k])   \* the other one decomposed
  \/ \E q \in 0..3 : Set(r, Rot(q), [o |-> "fr", r |-> r, q |-> q])
  \/ \E q \in 0..3 : Set(r, Then(reg[r], Rot(q)), [o |-> "ro", r |-> r, q |-> q])
  \/ \E x, y \in D : Set(r, Translation(x, y), [o |-> "ft", r |-> r, x |-> x, y |-> y])
  \/ \E x, y \in D : Set(r, Then(reg[r], Translation(x, y)), [o |-> "tr", r |-> r, x |-> x, y |-> y])
  \/ \E q \in 0..3, x, y \in D : Set(r, Then(Rot(q), Translation(x, y)), [o |-> "fd", r |-> r, q |-> q, x |-> x, y |-> y])
  \/ \E q \in 0..3, x, y \in D : Set(r, Then(Then(reg[r], Rot(q)), Translation(x, y)), [o |-> "rt", r |-> r, q |-> q, x |-> x, y |-> y])
  \/ \E q \in 0..3, x, y \in D : Set(r, Then(Then(reg[r], Translation(x, y)), Rot(q)), [o |-> "rr", r |-> r, q |-> q, x |-> x, y |-> y])
  \/ \E q \in 0..3, x, y \in D : Set(r, Then(reg[r], Then(Rot(q), Translation(x, y))), [o |-> "td", r |-> r, q |-> q, x |-> x, y |-> y])
Done == /\ Gen /\ Len(hist) = MaxLen /\ PrintT(<<"SCHED", ToJson(hist)>>)
        /\ hist' = Append(hist, [o |-> "end"]) /\ UNCHANGED reg
Next == Done \/ ((Gen => Len(hist) < MaxLen) /\ Step)
Spec == Init /\ [][Next]_vars
Small == \A r \in R : reg[r].x \in -B..B /\ reg[r].y \in -B..B

Points == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, -3>>}
Laws == \A a, b \in R : LET m == reg[a]  n == reg[b] IN
  /\ Then(m, Inverse(m)) = Id /\ Then(Inverse(m), m) = Id
  /\ Inverse(Then(m, n)) = Then(Inverse(n), Inverse(m))
  /\ Then(Then(m, n), m) = Then(m, Then(n, m))
  /\ \A p \in Points : Apply(Then(m, n), p) = Apply(n, Apply(m, p))
  /\ Motion(m.c, m.s, m.x, m.y) = Then(Rotation(m.c, m.s), Translation(m.x, m.y))
  \* rigid: distances and orientation are preserved
  /\ m.c * m.c + m.s * m.s = F * F
=============================================================================
