---------------------------- MODULE LayoutTrace ----------------------------
(* Follows recorded histories of real layouts with the state machine of      *)
(* Layouts; every observation must match the abstract state.                 *)
EXTENDS LayObs, Layouts
E == INSTANCE Engine
VARIABLES l, wl, st, ct, lay, snap
vars == <<l, wl, st, ct, lay, snap>>
W == Trace[wl]
None == [id |-> 0]
Init == l = 1 /\ wl = 0 /\ st = <<>> /\ ct = <<>> /\ lay = <<>> /\ snap = <<>>
Begin == /\ l <= Len(Trace) /\ Trace[l].e = "begin"
         /\ wl' = l /\ l' = l + 1 /\ st' = StatTab(Trace[l]) /\ ct' = CandTab(Trace[l])
         /\ lay' = [g \in 1..2 |-> IF g = 1 THEN NewLayout(1, 1) ELSE None]
         /\ snap' = [s \in 1..3 |-> None]
Fresh(g, k) == \A x \in lay[g].items : x[1] # k
(* a snapshot's dump against what it must hold *)
SnapOK(s, d) == /\ d.id = s.id /\ d.bin = s.bin /\ Items(d) = s.items /\ WellFormed(W, d) /\ ShapesOK(W, d)
                /\ UsageOK(W, d)
OpOK(e) == /\ e.ok = 1
           /\ CASE e.o = "place" -> Fresh(e.g, e.k)
                [] e.o = "remove" -> e.rc = e.i /\ <<e.k, e.i>> \in lay[e.g].items
                [] e.o = "snap" -> SnapOK(SnapshotOf(lay[e.g]), e.sd)
                [] OTHER -> TRUE
After(e) ==
  CASE e.o = "place"   -> [lay EXCEPT ![e.g] = PlacedIn(@, e.k, e.i)]
    [] e.o = "remove"  -> [lay EXCEPT ![e.g] = RemovedFrom(@, e.k, e.i, e.now = 1)]
    [] e.o = "bin"     -> [lay EXCEPT ![e.g] = Rebinned(@, e.b)]
    [] e.o = "snap"    -> [lay EXCEPT ![e.g] = Settled(@)]
    [] e.o = "restore" -> [lay EXCEPT ![e.g] = FromSnapshot(snap[e.s])]
    [] e.o = "from"    -> [lay EXCEPT ![e.g] = FromSnapshot(snap[e.s])]
    [] e.o = "clone"   -> [lay EXCEPT ![e.f] = [lay[e.g] EXCEPT !.id = e.id]]
    [] e.o = "flush"   -> [lay EXCEPT ![e.g] = FlushedGrid(@)]
Op == /\ l <= Len(Trace) /\ Trace[l].e = "op"
      /\ IF OpOK(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l, wl>>) /\ Lenient
      /\ lay' = After(Trace[l])
      /\ snap' = IF Trace[l].o = "snap" THEN [snap EXCEPT ![Trace[l].s] = SnapshotOf(lay[Trace[l].g])] ELSE snap
      /\ l' = l + 1 /\ UNCHANGED <<wl, st, ct>>
ObsOK(e) == LET a == lay[e.g] eng == [on |-> On(a), up |-> a.up, gp |-> a.gp] IN
  /\ e.id = a.id /\ e.bin = a.bin /\ Items(e) = a.items
  /\ MirrorOK(W, st, ct, e) /\ UsageOK(W, e)
  /\ (e.en.unc = 1) = E!Pending(eng)
  /\ e.en.rd # -1 => (E!MustRead(eng) => e.en.rd = 1) /\ (E!MustRefuse(eng) => e.en.rd = 0)
EventOK(e) == CASE e.e = "obs" -> ObsOK(e) [] e.e = "snapobs" -> SnapOK(snap[e.s], e.sd) [] OTHER -> FALSE
Obs == /\ l <= Len(Trace) /\ Trace[l].e \notin {"begin", "op"}
       /\ IF EventOK(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l, wl>>) /\ Lenient
       /\ l' = l + 1 /\ UNCHANGED <<wl, st, ct, lay, snap>>
Next == Begin \/ Op \/ Obs
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
