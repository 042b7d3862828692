------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* What the collision detection engine means, as a state machine: the set  *)
(* of item hazards that are logically present, the removals the engine has *)
(* deferred, those its proximity grid has not processed, the snapshots.  Several engines   *)
(* (copies of one another) live side by side; snapshots can be restored    *)
(* into any of them.  No quadtree, no activation flags, no cells: those    *)
(* belong to EngineImpl, which is checked to refine this module.           *)
(*                                                                         *)
(* The operators below the line are shared with EngineTrace, which follows *)
(* recorded executions of the real engine; EngineGen turns this module     *)
(* into a generator of schedules.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* --- one engine: [on: hazards present, up: deferred removals, gp: removals pending in the grid] --- *)
Fresh == [on |-> {}, up |-> {}, gp |-> {}]
CanRegister(e, h) == h \notin e.on
(* registering a hazard whose removal was deferred takes that removal back *)
Registered(e, h) == [e EXCEPT !.on = @ \cup {h}, !.up = @ \ {h}]
CanDeregister(e, h) == h \in e.on
(* an immediate removal leaves earlier deferred ones pending *)
Deregistered(e, h, now) == [on |-> e.on \ {h},
                            up |-> IF now THEN e.up ELSE e.up \cup {h},
                            gp |-> IF now THEN e.gp ELSE e.gp \cup {h}]
Committed(e) == [e EXCEPT !.up = {}, !.gp = {}]
(* flushing is only about the grid *)
Flushed(e) == [e EXCEPT !.gp = {}]
(* a snapshot is the set of hazards present; taking it commits *)
SnapOf(e) == e.on
Restored(e, s) == [on |-> s, up |-> {}, gp |-> {}]
(* are there deferred removals? *)
Pending(e) == e.up # {}

(* may / must the grid be readable; a pending removal of a hazard that was registered again is *)
(* unspecified                                                                                 *)
MustRead(e) == e.gp = {}
MustRefuse(e) == e.gp \ e.on # {}
=============================================================================
