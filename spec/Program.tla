------------------------------ MODULE Program ------------------------------
(***************************************************************************)
(* The command line program as a step on the files around it.  A request   *)
(* q names an input (in: what is there, stem: its name without the last    *)
(* extension), a folder for the solution (dir, with its separator), a      *)
(* configuration (cf) and is complete or not (a).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Valid(q) == q.a = "full" /\ q.in = "good" /\ q.cf \in {"none", "good", "free"}
Sol(q) == q.dir \o "sol_" \o q.stem \o ".json"
Svg(q, i) == q.dir \o "sol_" \o q.stem \o "_" \o ToString(i) \o ".svg"
(* one description of the solution and one drawing per layout *)
Written(q, n) == {Sol(q)} \cup {Svg(q, i) : i \in 0..n - 1}
(* drawings that an earlier, larger solution may have left behind *)
Stale(q, n, m) == {Svg(q, i) : i \in n..m}
=============================================================================
