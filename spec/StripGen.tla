------------------------------ MODULE StripGen ------------------------------
(* Strip as a transition system on a line: placements are intervals.  Checked *)
(* exhaustively for small bounds; source of schedules with -simulate.         *)
EXTENDS Strip, TLC, Json
CONSTANTS NC, NS, MaxW, Dem, ItOf, Iv, MaxLen, Gen
VARIABLES p, sols, hist
vars == <<p, sols, hist>>
C == 1..NC
None == [ok |-> FALSE]
Log(o) == IF Gen THEN hist' = Append(hist, o) ELSE UNCHANGED hist
Init == p = [rect |-> <<0, 0, 2, 1>>, items |-> {}, miss |-> Dem] /\ sols = [s \in 1..NS |-> None] /\ hist = <<>>
In(c, r) == Iv[c][1] >= r[1] /\ Iv[c][2] <= r[3]
Place(c) == /\ c \notin OnS(p) /\ In(c, p.rect)
            /\ p' = [p EXCEPT !.items = @ \cup {<<c, c>>}, !.miss[ItOf[c]] = @ - 1] /\ UNCHANGED sols /\ Log([o |-> "place", i |-> c])
Remove(c, now) == /\ c \in OnS(p)
             /\ p' = [p EXCEPT !.items = @ \ {<<c, c>>}, !.miss[ItOf[c]] = @ + 1] /\ UNCHANGED sols
             /\ Log([o |-> "remove", i |-> c, now |-> IF now THEN 1 ELSE 0])
Resized(r) == LET kept == {x \in p.items : In(x[2], r)} gone == p.items \ kept
              IN [rect |-> r, items |-> kept, miss |-> [i \in 1..Len(Dem) |-> p.miss[i] + Cardinality({x \in gone : ItOf[x[2]] = i})]]
Bounded(r) == r[1] >= -MaxW /\ r[3] <= MaxW /\ r[3] > r[1]
Resize(r, o) == /\ (~Gen => Bounded(r)) /\ p' = Resized(r) /\ UNCHANGED sols /\ Log(o)
Lo == CHOOSE a \in {Iv[c][1] : c \in OnS(p)} : \A c \in OnS(p) : a <= Iv[c][1]
Hi == CHOOSE b \in {Iv[c][2] : c \in OnS(p)} : \A c \in OnS(p) : b >= Iv[c][2]
Fit == /\ OnS(p) # {} /\ p' = Resized(<<Lo, 0, Hi, 1>>) /\ UNCHANGED sols /\ Log([o |-> "fit"])
Centre(w) == /\ OnS(p) # {} /\ (w + Lo + Hi) % 2 = 0
             /\ LET r2 == CentreRect2(p.rect, Lo, Hi, w) IN Resize(<<r2[1] \div 2, 0, r2[3] \div 2, 1>>, [o |-> "center", w |-> w])
Sol(s) == sols' = [sols EXCEPT ![s] = p] /\ UNCHANGED p /\ Log([o |-> "sol", s |-> s])
Restore(s) == sols[s] # None /\ p' = sols[s] /\ UNCHANGED sols /\ Log([o |-> "restore", s |-> s])
Foreign(s) == Gen /\ UNCHANGED <<p, sols>> /\ Log([o |-> "foreign", s |-> s])
Step == \/ \E c \in C : Place(c) \/ \E now \in BOOLEAN : Remove(c, now)
        \/ \E w \in 1..MaxW : Resize(BackRect(p.rect, w), [o |-> "back", w |-> w]) \/ Resize(FrontRect(p.rect, w), [o |-> "front", w |-> w]) \/ Centre(w)
        \/ Fit \/ \E s \in 1..NS : Sol(s) \/ Restore(s)
Done == /\ Gen /\ Len(hist) = MaxLen /\ PrintT(<<"SCHED", ToJson(hist)>>)
        /\ hist' = Append(hist, [o |-> "end"]) /\ UNCHANGED <<p, sols>>
Next == Done \/ ((Gen => Len(hist) < MaxLen) /\ Step)
Spec == Init /\ [][Next]_vars
Conserved == \A i \in 1..Len(Dem) : p.miss[i] + Cardinality({x \in p.items : ItOf[x[2]] = i}) = Dem[i]
AllInside == \A x \in p.items : In(x[2], p.rect)
FitKeeps == [][Fit => p'.items = p.items]_vars
GrowKeeps == [][p'.rect[1] <= p.rect[1] /\ p'.rect[3] >= p.rect[3] /\ p'.rect # p.rect /\ sols' = sols
                  => (\E s \in 1..NS : p' = sols[s]) \/ p'.items = p.items]_vars
=============================================================================
