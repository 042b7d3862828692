----------------------------- MODULE EngineImpl -----------------------------
(***************************************************************************)
(* The engine as it is built: a quadtree whose entries can be switched off *)
(* (deferred removal), the list of deferred removals, and a proximity grid *)
(* that keeps per cell the nearest hazard and its own list of deferred     *)
(* removals.  Checked to refine Engine for every distance assignment in    *)
(* Dist and every history: what queries see is exactly what is logically   *)
(* present, and a readable grid holds what a computation from scratch gives *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NH, NC, NS, MaxDist
H == 1..NH
C == 1..NC
S == 1..NS
VARIABLES dist,   \* dist[c][h]: fixed per behaviour; h = 0 is the nearest static hazard
          qt,     \* qt[h] \in {"none", "on", "off"}
          dyn,    \* the engine's list of dynamic hazards
          unc,    \* deferred removals of the quadtree
          cell,   \* cell[c] = <<distance, hazard>>
          gunc,   \* deferred removals of the grid
          snap,   \* snapshots: [dyn, cell] or NoSnap
          abs,    \* the abstract engine: [on, up, gp]
          absSnap
vars == <<dist, qt, dyn, unc, cell, gunc, snap, abs, absSnap>>
A == INSTANCE Engine
NoSnap == [dyn |-> {-1}, cell |-> <<>>]

Init == /\ dist \in [C -> [0..NH -> 0..MaxDist]]
        /\ qt = [h \in H |-> "none"] /\ dyn = {} /\ unc = {}
        /\ cell = [c \in C |-> <<dist[c][0], 0>>] /\ gunc = {}
        /\ snap = [s \in S |-> NoSnap] /\ abs = A!Fresh /\ absSnap = [s \in S |-> {}]

(* registering lets a cell switch to the new hazard only when it is strictly closer *)
Update(cl, h) == [c \in C |-> IF dist[c][h] < cl[c][1] THEN <<dist[c][h], h>> ELSE cl[c]]
(* recomputing a cell: static value, then every remaining hazard; ties may go either way *)
Nearest(c, R) == LET m == CHOOSE d \in {dist[c][h] : h \in R \cup {0}} : \A h \in R \cup {0} : d <= dist[c][h]
                 IN {<<m, h>> : h \in {x \in R \cup {0} : dist[c][x] = m}}
Refresh(cl, gone, R) == [c \in C |-> IF cl[c][2] \in gone THEN CHOOSE v \in Nearest(c, R) : TRUE ELSE cl[c]]

Register(h) ==
  /\ h \notin dyn
  /\ IF h \in unc THEN unc' = unc \ {h} ELSE UNCHANGED unc
  /\ qt' = [qt EXCEPT ![h] = "on"]
  /\ cell' = Update(cell, h)
  /\ dyn' = dyn \cup {h}
  /\ abs' = A!Registered(abs, h)
  /\ UNCHANGED <<dist, gunc, snap, absSnap>>
Deregister(h, now) ==
  /\ h \in dyn
  /\ dyn' = dyn \ {h}
  /\ IF now THEN qt' = [qt EXCEPT ![h] = "none"] /\ UNCHANGED unc /\ UNCHANGED gunc
                 /\ cell' = Refresh(cell, {h}, dyn')
     ELSE qt' = [qt EXCEPT ![h] = "off"] /\ unc' = unc \cup {h} /\ gunc' = gunc \cup {h} /\ UNCHANGED cell
  /\ abs' = A!Deregistered(abs, h, now)
  /\ UNCHANGED <<dist, snap, absSnap>>
Flush == /\ gunc' = {} /\ cell' = IF gunc = {} THEN cell ELSE Refresh(cell, gunc, dyn)
         /\ abs' = A!Flushed(abs) /\ UNCHANGED <<dist, qt, dyn, unc, snap, absSnap>>
CommitState == [qt |-> [h \in H |-> IF h \in unc THEN "none" ELSE qt[h]],
                cell |-> IF gunc = {} THEN cell ELSE Refresh(cell, gunc, dyn)]
Commit == /\ qt' = CommitState.qt /\ cell' = CommitState.cell /\ unc' = {} /\ gunc' = {}
          /\ abs' = A!Committed(abs) /\ UNCHANGED <<dist, dyn, snap, absSnap>>
Snapshot(s) == /\ qt' = CommitState.qt /\ cell' = CommitState.cell /\ unc' = {} /\ gunc' = {}
               /\ snap' = [snap EXCEPT ![s] = [dyn |-> dyn, cell |-> cell']]
               /\ absSnap' = [absSnap EXCEPT ![s] = A!SnapOf(abs)]
               /\ abs' = A!Committed(abs) /\ UNCHANGED <<dist, dyn>>
(* hazards to remove leave the quadtree, deferred removals are switched on again or deleted, *)
(* and what is still lacking is inserted                                                      *)
Restore(s) == /\ snap[s] # NoSnap
              /\ qt' = [h \in H |-> IF h \in snap[s].dyn THEN "on" ELSE "none"]
              /\ dyn' = snap[s].dyn /\ unc' = {} /\ gunc' = {} /\ cell' = snap[s].cell
              /\ abs' = A!Restored(abs, absSnap[s]) /\ UNCHANGED <<dist, snap, absSnap>>
Next == \/ \E h \in H : Register(h) \/ \E now \in BOOLEAN : Deregister(h, now)
        \/ Flush \/ Commit \/ \E s \in S : Snapshot(s) \/ Restore(s)
Spec == Init /\ [][Next]_vars

(* what a query of the quadtree sees *)
Visible == {h \in H : qt[h] = "on"}
Refines == Visible = abs.on /\ dyn = abs.on
Lists == unc = {h \in H : qt[h] = "off"} /\ unc \cap dyn = {} /\ unc = abs.up
Readable == gunc = {}
GridRight == Readable => \A c \in C : cell[c] \in Nearest(c, abs.on)
ReadRule == (A!MustRead(abs) => Readable) /\ (A!MustRefuse(abs) => ~Readable)
(* also while unreadable: a cell is never nearer than what was once there, and not stale upwards *)
GridLower == \A c \in C : \A h \in dyn : cell[c][1] <= dist[c][h]
=============================================================================
