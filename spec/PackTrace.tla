----------------------------- MODULE PackTrace -----------------------------
(***************************************************************************)
(* Follows recorded histories of real bin packing problems with Packing.   *)
(* Every operation is logged with the complete state after it; each step   *)
(* is judged against the state observed before it.  MODE selects what is   *)
(* judged: "acct" (C08: operations and conservation), "restore" (C09:      *)
(* solutions and restoring), "stats" (C19: the reported numbers).          *)
(***************************************************************************)
EXTENDS LayObs, Packing
VARIABLES l, wl, st, ct, cur, sols, rst
vars == <<l, wl, st, ct, cur, sols, rst>>
W == Trace[wl]
Mode == IOEnv.MODE
AbsL(d) == [id |-> d.id, bin |-> d.bin, items |-> Items(d)]
AbsLs(ds) == {AbsL(ds[i]) : i \in 1..Len(ds)}
Abs0(s) == [ls |-> AbsLs(s.ls), miss |-> s.miss, stock |-> s.stock]
It(w, c) == w.cands[c].it + 1
NIn(w, x, i) == Cardinality({y \in x.items : It(w, y[2]) = i})
None == [ls |-> {}, miss |-> <<>>, stock |-> <<>>, ok |-> FALSE]

(* --- well-formed states --- *)
Formed(w, s) == /\ \A i \in 1..Len(s.ls) : WellFormed(w, s.ls[i]) /\ s.ls[i].bin \in 1..Len(w.bins)
                /\ Cardinality({s.ls[i].id : i \in 1..Len(s.ls)}) = Len(s.ls)
                /\ Len(s.miss) = Len(w.dem) /\ Len(s.stock) = Len(w.sup)
(* --- C08 --- *)
AcctOK(w, s) == LET a == Abs0(s) IN
  /\ Formed(w, s)
  /\ \A i \in 1..Len(w.dem) : SumTo([n \in 1..Len(s.ls) |-> NIn(w, AbsL(s.ls[n]), i)], Len(s.ls)) + s.miss[i] = w.dem[i]
  /\ \A b \in 1..Len(w.sup) : CountBin(a, b) + s.stock[b] = w.sup[b]
  /\ Len(s.placed) = Len(w.dem) /\ \A i \in 1..Len(w.dem) : s.placed[i] + s.miss[i] = w.dem[i]
  /\ s.idx = Len(s.ls)
  /\ NoDup(s.tmpl) /\ ToSet(s.tmpl) = {b \in 1..Len(w.sup) : s.stock[b] > 0}
(* the state an operation must lead to *)
StepOK(e, a, b) ==
  CASE e.o = "open" -> e.ok = 1 /\ CanOpen(a, e.b, e.rl) /\ e.real = 1 /\ e.here = 1 /\ b = Opened(a, e.b, e.rl, e.k, e.i, It(W, e.i))
    [] e.o = "place" -> e.ok = 1 /\ e.rl = e.l /\ e.real = 1 /\ e.here = 1 /\ CanPlace(a, e.l, e.k, e.i) /\ b = Placed(a, e.l, e.k, e.i, It(W, e.i))
    [] e.o = "remove" -> e.ok = 1 /\ CanRemove(a, e.l, e.k, e.i) /\ e.rc = e.i /\ b = Removed(a, e.l, e.k, e.i, It(W, e.i))
    [] e.o = "rml" -> e.ok = 1 /\ b = Closed(a, e.l, LAMBDA i : NIn(W, Lay(a, e.l), i))
    [] e.o = "regl" -> LET x == [Lay(a, e.l) EXCEPT !.id = e.id]
                           a2 == IF e.keep = 1 THEN Closed(a, e.l, LAMBDA i : NIn(W, x, i)) ELSE a
                       IN e.ok = 1 /\ e.rl = e.id /\ b = Joined(a2, x, LAMBDA i : NIn(W, x, i))
    [] e.o \in {"sol", "flush"} -> e.ok = 1 /\ b = a
    [] OTHER -> TRUE                           \* restoring: only conservation, here
(* --- C09 --- *)
SolOK(a, d) == /\ AbsLs(d.ls) = a.ls /\ Len(d.ls) = Cardinality(a.ls) /\ d.stock = a.stock
               /\ \A i \in 1..Len(d.ls) : WellFormed(W, d.ls[i]) /\ ShapesOK(W, d.ls[i])
               /\ Len(d.placed) = Len(W.dem) /\ \A i \in 1..Len(W.dem) : d.placed[i] + a.miss[i] = W.dem[i]
               /\ d.target = W.dem
LaysOK(s) == \A i \in 1..Len(s.ls) : MirrorOK(W, st, ct, s.ls[i])
RestOK(e, a, b) ==
  CASE e.o = "sol" -> e.ok = 1 /\ SolOK(a, e.sd) /\ b = a
    [] e.o = "restore" -> e.ok = 1 /\ b = [ls |-> sols[e.s].ls, miss |-> sols[e.s].miss, stock |-> sols[e.s].stock] /\ Len(e.st.ls) = Cardinality(b.ls)
    [] OTHER -> TRUE
(* --- C19 --- *)
TotalBinA2(ls) == SumTo([i \in 1..Len(ls) |-> BinA2(W, ls[i].bin)], Len(ls))
TotalItemA2(ls) == SumTo([i \in 1..Len(ls) |-> CandsA2(W, Cands(ls[i]))], Len(ls))
DemA2 == SumTo([i \in 1..Len(W.dem) |-> W.dem[i] * ItemA2(W, i - 1)], Len(W.dem))
PlacedA2(d) == SumTo([i \in 1..Len(W.dem) |-> d.placed[i] * ItemA2(W, i - 1)], Len(W.dem))
CountD(ls, i) == SumTo([n \in 1..Len(ls) |-> NIn(W, AbsL(ls[n]), i)], Len(ls))
StatsOK(s) == /\ \A i \in 1..Len(s.ls) : UsageOK(W, s.ls[i])
              /\ Len(s.ls) > 0 => RatioOK(s.us, TotalItemA2(s.ls), TotalBinA2(s.ls))
              /\ s.cost = SumTo([i \in 1..Len(s.ls) |-> W.cost[s.ls[i].bin]], Len(s.ls))
              /\ \A i \in 1..Len(W.dem) : s.placed[i] = CountD(s.ls, i) /\ s.miss[i] = W.dem[i] - s.placed[i]
SolStatsOK(d) == /\ \A i \in 1..Len(d.ls) : UsageOK(W, d.ls[i])
                 /\ Len(d.ls) > 0 => RatioOK(d.us, TotalItemA2(d.ls), TotalBinA2(d.ls)) /\ d.ju = d.us
                 /\ Len(d.jl) = Len(d.ls) /\ \A i \in 1..Len(d.ls) : d.jl[i] = d.ls[i].us
                 /\ RatioOK(d.compl, PlacedA2(d), DemA2)
                 /\ \A i \in 1..Len(W.dem) : d.placed[i] = CountD(d.ls, i) /\ d.miss[i] = W.dem[i] - d.placed[i] /\ d.target[i] = W.dem[i]
                 /\ d.n = SumSeq(d.placed)
                 /\ d.full = (IF \A i \in 1..Len(W.dem) : d.placed[i] >= W.dem[i] THEN 1 ELSE 0)
                 /\ \A b \in 1..Len(W.sup) : d.stock[b] = W.sup[b] - Cardinality({i \in 1..Len(d.ls) : d.ls[i].bin = b})
(* instance totals: logged as 1/10000 of item_area / 100, i.e. in 1/100 units of area *)
InstOK(w) == /\ w.tot = SumSeq(w.dem)
             /\ Abs(2 * w.iarea - 100 * SumTo([i \in 1..Len(w.dem) |-> w.dem[i] * Abs(Area2(w.ia[i]))], Len(w.dem))) <= 4

Init == l = 1 /\ wl = 0 /\ st = <<>> /\ ct = <<>> /\ cur = None /\ sols = <<>> /\ rst = FALSE
Reject(ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, wl>>) /\ Lenient
BeginOK(w) == CASE Mode = "acct" -> AcctOK(w, w.st) /\ w.st.ls = <<>>
                [] Mode = "stats" -> InstOK(w)
                [] OTHER -> TRUE
Begin == /\ l <= Len(Trace) /\ Trace[l].e = "begin"
         /\ Reject(BeginOK(Trace[l]))
         /\ wl' = l /\ l' = l + 1
         /\ IF Mode = "restore" THEN st' = StatTab(Trace[l]) /\ ct' = CandTab(Trace[l]) ELSE st' = <<>> /\ ct' = <<>>
         /\ cur' = Abs0(Trace[l].st) /\ sols' = [s \in 1..3 |-> None] /\ rst' = FALSE
(* a panic ends the history; it is judged where it belongs *)
PanicOK(e) == CASE Mode = "acct" -> e.o \in {"sol", "restore"}
                [] Mode = "restore" -> e.o \notin {"sol", "restore"}
                [] OTHER -> TRUE
EventOK(e) ==
  IF e.ok = 0 THEN PanicOK(e)
  ELSE CASE Mode = "acct" -> AcctOK(W, e.st) /\ StepOK(e, cur, Abs0(e.st))
         [] Mode = "restore" -> RestOK(e, cur, Abs0(e.st)) /\ (rst \/ e.o = "restore" => LaysOK(e.st))
         [] Mode = "stats" -> StatsOK(e.st) /\ (e.o = "sol" => SolStatsOK(e.sd))
Op == /\ l <= Len(Trace) /\ Trace[l].e = "op"
      /\ Reject(EventOK(Trace[l]))
      /\ cur' = IF Trace[l].ok = 1 THEN Abs0(Trace[l].st) ELSE cur
      /\ sols' = IF Trace[l].o = "sol" /\ Trace[l].ok = 1 THEN [sols EXCEPT ![Trace[l].s] = cur] ELSE sols
      /\ rst' = (rst \/ Trace[l].o = "restore")
      /\ l' = l + 1 /\ UNCHANGED <<wl, st, ct>>
(* a solution looked at again *)
SolObsOK(e) == CASE Mode = "restore" -> SolOK(sols[e.s], e.sd) [] Mode = "stats" -> SolStatsOK(e.sd) [] OTHER -> TRUE
Obs == /\ l <= Len(Trace) /\ Trace[l].e \notin {"begin", "op"}
       /\ Reject(IF Trace[l].e = "solobs" THEN SolObsOK(Trace[l]) ELSE FALSE)
       /\ l' = l + 1 /\ UNCHANGED <<wl, st, ct, cur, sols, rst>>
Next == Begin \/ Op \/ Obs
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
