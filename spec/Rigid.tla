------------------------------- MODULE Rigid -------------------------------
(***************************************************************************)
(* The group of rigid motions of the plane: a rotation followed by a       *)
(* translation.  Cosine and sine are fixed-point numbers with denominator  *)
(* F (F = 1: the exact group of quarter turns and lattice translations).   *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT F

(* rounded division by F *)
Rnd(v) == (2 * v + F) \div (2 * F)
Id == [c |-> F, s |-> 0, x |-> 0, y |-> 0]
Motion(c, s, x, y) == [c |-> c, s |-> s, x |-> x, y |-> y]
Rotation(c, s) == Motion(c, s, 0, 0)
Translation(x, y) == Motion(F, 0, x, y)
Turn(m, p) == <<Rnd(m.c * p[1] - m.s * p[2]), Rnd(m.s * p[1] + m.c * p[2])>>
Apply(m, p) == LET q == Turn(m, p) IN <<q[1] + m.x, q[2] + m.y>>
(* first m, then n *)
Then(m, n) == LET t == Apply(n, <<m.x, m.y>>) IN
  Motion(Rnd(n.c * m.c - n.s * m.s), Rnd(n.s * m.c + n.c * m.s), t[1], t[2])
Inverse(m) == LET t == Turn(Rotation(m.c, -m.s), <<m.x, m.y>>) IN Motion(m.c, -m.s, -t[1], -t[2])
=============================================================================
