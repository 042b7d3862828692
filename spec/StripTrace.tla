----------------------------- MODULE StripTrace -----------------------------
(***************************************************************************)
(* Follows recorded histories of real strip packing problems with Strip.   *)
(* Coordinates are in 1/64; the strip's edges carry a rounding error of    *)
(* one unit, items within 1/32 of an edge may be kept or dropped.          *)
(* MODE: "strip" (C10) or "stats" (C19).                                   *)
(***************************************************************************)
EXTENDS LayObs, Strip
VARIABLES l, wl, ct, cur, sols
vars == <<l, wl, ct, cur, sols>>
W == Trace[wl]
Mode == IOEnv.MODE
None == [ok |-> FALSE]
K == 2
RectPoly(r) == <<<<r[1], r[2]>>, <<r[3], r[2]>>, <<r[3], r[4]>>, <<r[1], r[4]>>>>
It(w, c) == w.cands[c].it + 1
St(s) == [rect |-> s.rect, items |-> Items(s), miss |-> s.miss]
Near(a, b) == \A i \in 1..4 : Abs(a[i] - b[i]) <= 2
CB(c) == PolyBox(W.cands[c].p)
Lo(on) == LET S == {CB(c)[1] : c \in on} IN CHOOSE x \in S : \A y \in S : x <= y
Hi(on) == LET S == {CB(c)[3] : c \in on} IN CHOOSE x \in S : \A y \in S : x >= y
Verd(c, r) == LeavesB(W.cands[c].p, CB(c), RectPoly(r), r, K + 2)
Must(on, r) == {c \in on : Verd(c, r) = "F"}
May(on, r) == {c \in on : Verd(c, r) = "U"}
Count(w, s, i) == Cardinality({y \in Items(s) : It(w, y[2]) = i})

(* in every state: items conserved, engine in step with items and strip *)
ProbeOK(r, on, en) ==
  /\ en.ok = 1 /\ NoDup(en.dyn) /\ ToSet(en.dyn) = on /\ en.stat = 1
  /\ \A n \in 1..Len(en.col) :
       LET v == LeavesB(W.pr[n], PolyBox(W.pr[n]), RectPoly(r), r, K) S == ToSet(en.col[n])
       IN /\ NoDup(en.col[n]) /\ S \subseteq {1} \cup {100 + i : i \in on}
          /\ (1 \in S => v # "F") /\ (v = "T" => 1 \in S)
          /\ \A i \in on : IF (100 + i) \in S THEN ct[n][i] # "F" ELSE ct[n][i] # "T"
          /\ (en.pc[n] = 1 => v # "F" \/ \E i \in on : ct[n][i] # "F")
          /\ (en.pc[n] = 0 => v # "T" /\ \A i \in on : ct[n][i] # "T")
SoundOK(w, s) == /\ WellFormed(w, s) /\ ShapesOK(w, s) /\ s.nl = 1 /\ s.gen = 1
                 /\ Len(s.miss) = Len(w.dem)
                 /\ \A i \in 1..Len(w.dem) : Count(w, s, i) + s.miss[i] = w.dem[i] /\ s.placed[i] = Count(w, s, i)
                 /\ Abs(s.sw - (s.rect[3] - s.rect[1])) <= 2 /\ Abs(s.sh - (s.rect[4] - s.rect[2])) <= 2
                 /\ IF Items(s) = {} THEN s.occ = <<>>
                    ELSE Abs(s.occ[1] - Lo(Cands(s))) <= 3 /\ Abs(s.occ[2] - Hi(Cands(s))) <= 3 /\ Abs(s.occ[3] - (s.occ[2] - s.occ[1])) <= 2
                 /\ ("en" \in DOMAIN s) => ProbeOK(s.rect, Cands(s), s.en) /\ NamesOK(s)
ResizeOK(a, b, r) == /\ Near(b.rect, r) /\ KeepOK(OnS(a), OnS(b), Must(OnS(a), b.rect), May(OnS(a), b.rect))
SameItems(a, b) == OnS(a) = OnS(b)
FitOK(a, b) == IF OnS(a) = {} THEN b = a
  ELSE LET lo == Lo(OnS(a)) hi == Hi(OnS(a)) ow == hi - lo IN
     /\ SameItems(a, b)
     /\ b.rect[1] <= lo + 2 /\ b.rect[3] >= hi - 2 /\ b.rect[3] - b.rect[1] <= ow + (ow \div 500) + 6
     /\ b.rect[2] = a.rect[2] /\ b.rect[4] = a.rect[4]
SolD(d) == [rect |-> d.rect, items |-> Items(d.ls[1]), miss |-> [i \in 1..Len(W.dem) |-> W.dem[i] - d.placed[i]]]
SolOK(a, d) == /\ Len(d.ls) = 1 /\ SolD(d) = a /\ WellFormed(W, d.ls[1]) /\ ShapesOK(W, d.ls[1]) /\ d.target = W.dem
StepOK(e, a, b) ==
  CASE e.o = "place" -> (\A y \in a.items : y[1] # e.k) /\ b = [a EXCEPT !.items = @ \cup {<<e.k, e.i>>}, !.miss[It(W, e.i)] = @ - 1]
    [] e.o = "remove" -> e.rc = e.i /\ b = [a EXCEPT !.items = @ \ {<<e.k, e.i>>}, !.miss[It(W, e.i)] = @ + 1]
    [] e.o = "back" -> ResizeOK(a, b, BackRect(a.rect, e.w))
    [] e.o = "front" -> ResizeOK(a, b, FrontRect(a.rect, e.w))
    [] e.o = "center" -> LET r2 == CentreRect2(a.rect, Lo(OnS(a)), Hi(OnS(a)), e.w) IN ResizeOK(a, b, [i \in 1..4 |-> r2[i] \div 2])
    [] e.o = "rect" -> ResizeOK(a, b, e.r)
    [] e.o = "fit" -> FitOK(a, b)
    [] e.o = "sol" -> b = a /\ SolOK(a, e.sd)
    [] e.o = "foreign" -> b = a /\ SolOK(St(e.fst), e.sd)
    [] e.o = "restore" -> b = sols[e.s]
    [] OTHER -> FALSE
(* --- C19 --- ; ratios in 1/10000 brought to 1/1000; areas doubled, times 64 *)
StripA(r) == 2 * (r[3] - r[1]) * ((r[4] - r[2]) \div 64)
UseOK(u, on, r) == Abs((u \div 10) * StripA(r) - 64 * 1000 * CandsA2(W, on)) <= 4 * StripA(r) + Max2(1, u \div 10) * 8 * ((r[4] - r[2]) \div 64)
DemA2 == SumTo([i \in 1..Len(W.dem) |-> W.dem[i] * ItemA2(W, i - 1)], Len(W.dem))
PlacedA2(d) == SumTo([i \in 1..Len(W.dem) |-> d.placed[i] * ItemA2(W, i - 1)], Len(W.dem))
Whole(r) == (r[4] - r[2]) % 64 = 0
SolStatsOK(d) == LET x == d.ls[1] IN
  /\ (Whole(d.rect) => UseOK(x.us, Cands(x), d.rect)) /\ Abs(d.us - x.us) <= 1 /\ d.ju = d.us /\ d.jl = <<x.us>>
  /\ RatioOK(d.compl, PlacedA2(d), DemA2)
  /\ \A i \in 1..Len(W.dem) : d.placed[i] = Cardinality({y \in Items(x) : It(W, y[2]) = i}) /\ d.miss[i] = W.dem[i] - d.placed[i] /\ d.target[i] = W.dem[i]
  /\ d.n = SumSeq(d.placed)
  /\ d.full = (IF \A i \in 1..Len(W.dem) : d.placed[i] >= W.dem[i] THEN 1 ELSE 0)
StatsOK(s) == (Whole(s.rect) => UseOK(s.us, Cands(s), s.rect)) /\ Abs(s.pus - s.us) <= 1
              /\ \A i \in 1..Len(W.dem) : s.placed[i] = Count(W, s, i) /\ s.miss[i] = W.dem[i] - s.placed[i]

Init == l = 1 /\ wl = 0 /\ ct = <<>> /\ cur = None /\ sols = <<>>
Reject(ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, wl>>) /\ Lenient
Begin == /\ l <= Len(Trace) /\ Trace[l].e = "begin"
         /\ Reject(Mode = "strip" => Near(Trace[l].st.rect, <<0, 0, Trace[l].w0, 64 * Trace[l].h>>) /\ Trace[l].st.items = <<>> /\ Trace[l].st.miss = Trace[l].dem)
         /\ wl' = l /\ l' = l + 1 /\ ct' = IF Mode = "strip" THEN CandTab(Trace[l]) ELSE <<>>
         /\ cur' = St(Trace[l].st) /\ sols' = [s \in 1..3 |-> None]
EventOK(e) == IF e.ok = 0 THEN Mode = "stats"
  ELSE CASE Mode = "strip" -> SoundOK(W, e.st) /\ StepOK(e, cur, St(e.st))
         [] Mode = "stats" -> StatsOK(e.st) /\ (e.o \in {"sol", "foreign"} => SolStatsOK(e.sd))
Op == /\ l <= Len(Trace) /\ Trace[l].e = "op"
      /\ Reject(EventOK(Trace[l]))
      /\ cur' = IF Trace[l].ok = 1 THEN St(Trace[l].st) ELSE cur
      /\ sols' = CASE Trace[l].ok = 1 /\ Trace[l].o = "sol" -> [sols EXCEPT ![Trace[l].s] = cur]
                   [] Trace[l].ok = 1 /\ Trace[l].o = "foreign" -> [sols EXCEPT ![Trace[l].s] = St(Trace[l].fst)]
                   [] OTHER -> sols
      /\ l' = l + 1 /\ UNCHANGED <<wl, ct>>
Obs == /\ l <= Len(Trace) /\ Trace[l].e \notin {"begin", "op"}
       /\ Reject(IF Trace[l].e # "solobs" THEN FALSE
                 ELSE IF Mode = "strip" THEN SolOK(sols[Trace[l].s], Trace[l].sd) ELSE SolStatsOK(Trace[l].sd))
       /\ l' = l + 1 /\ UNCHANGED <<wl, ct, cur, sols>>
Next == Begin \/ Op \/ Obs
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
