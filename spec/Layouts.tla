------------------------------ MODULE Layouts ------------------------------
(* A layout: an identity, a container and the items placed in it (pairs     *)
(* <<handle, placement>>), with the removals its engine has deferred (up)   *)
(* and those its grid has not seen yet (gp).                                *)
(* Snapshots are immutable copies.                                          *)
EXTENDS Integers, Sequences, FiniteSets
NewLayout(id, b) == [id |-> id, bin |-> b, items |-> {}, up |-> {}, gp |-> {}]
On(l) == {x[2] : x \in l.items}
PlacedIn(l, k, c) == [l EXCEPT !.items = @ \cup {<<k, c>>}, !.up = @ \ {c}]
RemovedFrom(l, k, c, now) == [l EXCEPT !.items = @ \ {<<k, c>>}, !.up = IF now THEN @ ELSE @ \cup {c}, !.gp = IF now THEN @ ELSE @ \cup {c}]
(* another container: same items, a new engine *)
Rebinned(l, b) == [l EXCEPT !.bin = b, !.up = {}, !.gp = {}]
SnapshotOf(l) == [id |-> l.id, bin |-> l.bin, items |-> l.items]
FromSnapshot(s) == [id |-> s.id, bin |-> s.bin, items |-> s.items, up |-> {}, gp |-> {}]
Settled(l) == [l EXCEPT !.up = {}, !.gp = {}]
FlushedGrid(l) == [l EXCEPT !.gp = {}]
=============================================================================
