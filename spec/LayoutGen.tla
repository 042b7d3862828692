----------------------------- MODULE LayoutGen -----------------------------
(* Layouts as a transition system: exhaustively checked for small bounds, and *)
(* the source of schedules (with -simulate) replayed on the real layouts.     *)
EXTENDS Layouts, TLC, Json
CONSTANTS NC, NB, NG, NS, NI, MaxLen, Gen
VARIABLES lay, snap, hist
vars == <<lay, snap, hist>>
None == [id |-> 0]
C == 1..NC
Log(o) == IF Gen THEN hist' = Append(hist, o) ELSE UNCHANGED hist
Init == /\ lay = [g \in 1..NG |-> IF g = 1 THEN NewLayout(1, 1) ELSE None]
        /\ snap = [s \in 1..NS |-> None] /\ hist = <<>>
Live(g) == lay[g] # None
(* handles are abstracted to the candidate itself: each is placed at most once at a time *)
Place(g, c) == /\ Live(g) /\ c \notin On(lay[g])
               /\ lay' = [lay EXCEPT ![g] = PlacedIn(@, c, c)] /\ UNCHANGED snap /\ Log([o |-> "place", g |-> g, i |-> c])
Remove(g, c, now) == /\ Live(g) /\ c \in On(lay[g])
                     /\ lay' = [lay EXCEPT ![g] = RemovedFrom(@, c, c, now)] /\ UNCHANGED snap
                     /\ Log([o |-> "remove", g |-> g, i |-> c, now |-> IF now THEN 1 ELSE 0])
Bin(g, b) == /\ Live(g) /\ lay' = [lay EXCEPT ![g] = Rebinned(@, b)] /\ UNCHANGED snap /\ Log([o |-> "bin", g |-> g, b |-> b])
Snap(g, s) == /\ Live(g) /\ snap' = [snap EXCEPT ![s] = SnapshotOf(lay[g])]
              /\ lay' = [lay EXCEPT ![g] = Settled(@)] /\ Log([o |-> "snap", g |-> g, s |-> s])
Restore(g, s) == /\ Live(g) /\ snap[s] # None /\ snap[s].id = lay[g].id
                 /\ lay' = [lay EXCEPT ![g] = FromSnapshot(snap[s])] /\ UNCHANGED snap /\ Log([o |-> "restore", g |-> g, s |-> s])
From(g, s) == /\ snap[s] # None
              /\ lay' = [lay EXCEPT ![g] = FromSnapshot(snap[s])] /\ UNCHANGED snap /\ Log([o |-> "from", g |-> g, s |-> s])
CloneL(g, f, id) == /\ Live(g) /\ g # f
                    /\ lay' = [lay EXCEPT ![f] = [lay[g] EXCEPT !.id = id]] /\ UNCHANGED snap
                    /\ Log([o |-> "clone", g |-> g, f |-> f, id |-> id])
Flush(g) == /\ Live(g) /\ lay' = [lay EXCEPT ![g] = FlushedGrid(@)] /\ UNCHANGED snap /\ Log([o |-> "flush", g |-> g])
Step == \/ \E g \in 1..NG, c \in C : Place(g, c) \/ \E now \in BOOLEAN : Remove(g, c, now)
        \/ \E g \in 1..NG, b \in 1..NB : Bin(g, b)
        \/ \E g \in 1..NG, s \in 1..NS : Snap(g, s) \/ Restore(g, s) \/ From(g, s)
        \/ \E g, f \in 1..NG, id \in 1..NI : CloneL(g, f, id)
        \/ \E g \in 1..NG : Flush(g)
Done == /\ Gen /\ Len(hist) = MaxLen /\ PrintT(<<"SCHED", ToJson(hist)>>)
        /\ hist' = Append(hist, [o |-> "end"]) /\ UNCHANGED <<lay, snap>>
Next == Done \/ ((Gen => Len(hist) < MaxLen) /\ Step)
Spec == Init /\ [][Next]_vars

Inv == \A g \in 1..NG : Live(g) => /\ On(lay[g]) \subseteq C /\ Cardinality(lay[g].items) = Cardinality(On(lay[g]))
                                   /\ lay[g].bin \in 1..NB /\ lay[g].up \cap On(lay[g]) = {}
SnapImmutable == [][\A s \in 1..NS : snap'[s] # snap[s] => \E g \in 1..NG : Snap(g, s)]_vars
RestoreExact == [][\A g \in 1..NG, s \in 1..NS : Restore(g, s) => SnapshotOf(lay'[g]) = snap[s]]_vars
Independent == [][\A g \in 1..NG : lay'[g] # lay[g] => \A f \in (1..NG) \ {g} : lay'[f] = lay[f]]_vars
=============================================================================
