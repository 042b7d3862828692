---------------------------- MODULE EngineTrace ----------------------------
(***************************************************************************)
(* Follows recorded histories of the real collision detection engine with  *)
(* the state machine of Engine: every operation is a step of Engine, and   *)
(* every observation must be one that the abstract state and the exact     *)
(* geometry allow.                                                         *)
(***************************************************************************)
EXTENDS HistGeo, Engine
VARIABLES l, wl, st, ct, eng, snap
vars == <<l, wl, st, ct, eng, snap>>
W == Trace[wl]
G == 1..2
S == 1..3
Dead == [on |-> {-1}, up |-> {}, gp |-> {}]

Init == l = 1 /\ wl = 0 /\ st = <<>> /\ ct = <<>> /\ eng = <<>> /\ snap = <<>>
Begin == /\ l <= Len(Trace) /\ Trace[l].e = "begin"
         /\ wl' = l /\ l' = l + 1
         /\ st' = StatTab(Trace[l]) /\ ct' = CandTab(Trace[l])
         /\ eng' = [g \in G |-> IF g = 1 THEN Fresh ELSE Dead]
         /\ snap' = [s \in S |-> {-1}]

(* the effect of an operation, or a rejected state when it is not allowed *)
After(e) ==
  CASE e.o = "reg"     -> [eng EXCEPT ![e.g] = Registered(@, e.i)]
    [] e.o = "dereg"   -> [eng EXCEPT ![e.g] = Deregistered(@, e.i, e.now = 1)]
    [] e.o = "commit"  -> [eng EXCEPT ![e.g] = Committed(@)]
    [] e.o = "flush"   -> [eng EXCEPT ![e.g] = Flushed(@)]
    [] e.o = "snap"    -> [eng EXCEPT ![e.g] = Committed(@)]
    [] e.o = "restore" -> [eng EXCEPT ![e.g] = Restored(@, snap[e.s])]
    [] e.o = "copy"    -> [eng EXCEPT ![e.f] = eng[e.g]]
OpOK(e) == e.ok = 1          \* no operation of a legal schedule may panic
Op == /\ l <= Len(Trace) /\ Trace[l].e = "op"
      /\ IF OpOK(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l, wl>>) /\ Lenient
      /\ eng' = After(Trace[l])
      /\ snap' = IF Trace[l].o = "snap" THEN [snap EXCEPT ![Trace[l].s] = SnapOf(eng[Trace[l].g])] ELSE snap
      /\ l' = l + 1 /\ UNCHANGED <<wl, st, ct>>

ObsOK(e) ==
  LET g == eng[e.g] IN
  /\ e.ok = 1
  /\ NoDup(e.dyn) /\ ToSet(e.dyn) = g.on               \* the hazards reported
  /\ e.stat = Len(W.bins[1]) /\ e.cls = 1
  /\ (e.unc = 1) = Pending(g)                          \* deferred removals are announced
  /\ \A n \in 1..Len(e.col) : ColOK(st, ct, 1, g.on, n, e.col[n])
  /\ \A n \in 1..Len(e.pc) : YesNoOK(st, ct, 1, g.on, n, e.pc[n])
  /\ e.rd # -1 => /\ (MustRead(g) => e.rd = 1)
                  /\ (MustRefuse(g) => e.rd = 0)
                  /\ \A c \in 1..Len(e.grid) : CellOK(W, 1, g.on, e.grid[c])

(* a cell ruled out for an item: the item, with its widest point in that cell, really collides *)
AccOK(e) ==
  LET g == eng[e.g]  P == e.p  bP == PolyBox(P) IN
  \/ \E j \in 1..Len(W.bins[1]) : Relevant(W.bins[1][j], e.q) /\ StatVerdict(W, 1, j, P, bP) # "F"
  \/ \E i \in g.on : CandVerdict(W, i, P, bP) # "F"
(* the grid covers the container *)
CovOK(e) == e.in = 1
   \/ PointIn(e.x, W.bins[1][1].p, W.k + 2) # "T"
   \/ \E j \in 2..Len(W.bins[1]) : W.bins[1][j].t = "hole" /\ PointIn(e.x, W.bins[1][j].p, W.k + 2) # "F"
(* put to a fresh engine that was given the same hazards, every question has the same answer *)
TwinOK(e) == /\ e.ok = 1
             /\ NoDup(e.has) /\ ToSet(e.has) = eng[e.g].on
             /\ \A n \in 1..Len(e.an) : e.an[n][1] = e.an[n][2]
EventOK(e) == CASE e.e = "twin" -> TwinOK(e) [] e.e = "obs" -> ObsOK(e) [] e.e = "acc" -> AccOK(e) [] e.e = "cov" -> CovOK(e) [] OTHER -> FALSE
Obs == /\ l <= Len(Trace) /\ Trace[l].e \notin {"begin", "op"}
       /\ IF EventOK(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l, wl>>) /\ Lenient
       /\ l' = l + 1 /\ UNCHANGED <<wl, st, ct, eng, snap>>
Next == Begin \/ Op \/ Obs
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
