------------------------------- MODULE Strip -------------------------------
(* A strip packing problem: the strip <<x0, y0, x1, y1>>, the items placed in *)
(* it (pairs <<handle, placement>>) and the quantities still missing.         *)
(* Resizing keeps exactly the items that lie in the new strip.                *)
EXTENDS Integers, Sequences, FiniteSets
OnS(p) == {x[2] : x \in p.items}
BackRect(r, w) == <<r[1], r[2], r[1] + w, r[4]>>
FrontRect(r, w) == <<r[3] - w, r[2], r[3], r[4]>>
(* centred on the range <<a, b>> the items occupy; doubled coordinates avoid fractions *)
CentreRect2(r, a, b, w) == <<a + b - w, 2 * r[2], a + b + w, 2 * r[4]>>
(* which items may remain: those in "must" have to, those in "may" can *)
KeepOK(before, after, must, may) == after \subseteq before /\ (before \cap must) \subseteq after /\ after \subseteq (must \cup may)
=============================================================================
