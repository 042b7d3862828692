----------------------------- MODULE RefusalGen -----------------------------
(* Callers that may ask for anything: requests are carried out when Refusal   *)
(* allows them, any other request ends the history.  Exhaustively checked:    *)
(* with these refusals no container is used that is not there, no item leaves *)
(* twice, every handle that is accepted names exactly one item, solutions are *)
(* built on the right reference.  With -simulate: schedules for the code, the *)
(* last request of each being an arbitrary one.                               *)
EXTENDS Refusal, TLC, Json
CONSTANTS Sup, NI, MaxK, MaxS, MaxLen, Gen
VARIABLES ls, nk, gone, ref, sols, stop, dead, hist
vars == <<ls, nk, gone, ref, sols, stop, dead, hist>>
S == [ls |-> ls, sup |-> Sup, ni |-> NI, ref |-> ref]
Init == ls = <<>> /\ nk = 1 /\ gone = {} /\ ref = 0 /\ sols = <<>> /\ stop \in (IF Gen THEN 1..MaxLen ELSE {0}) /\ dead = FALSE /\ hist = <<>>
Reqs == [o : {"open"}, i : 1..(Len(Sup) + 1), it : 1..(NI + 1)]
   \cup [o : {"place"}, i : 1..(Len(ls) + 1), it : 1..(NI + 1)]
   \cup [o : {"remove"}, i : 1..(Len(ls) + 1), k : 0..(nk - 1)]
   \cup [o : {"removet"}, i : 1..Len(Sup), k : 0..(nk - 1)]
   \cup [o : {"close"}, i : 1..(Len(ls) + 1)] \cup [o : {"closet"}, i : 1..Len(Sup)]
   \cup [o : {"join"}, b : 1..Len(Sup)] \cup [o : {"sol"}, old : 0..Len(sols)] \cup [o : {"restore"}, s : 1..Len(sols)]
Drop(i) == SubSeq(ls, 1, i - 1) \o SubSeq(ls, i + 1, Len(ls))
Do(a) ==
  \/ a.o = "open" /\ nk <= MaxK /\ ls' = Append(ls, [bin |-> a.i, keys |-> {nk}]) /\ nk' = nk + 1 /\ UNCHANGED <<gone, ref, sols>>
  \/ a.o = "place" /\ nk <= MaxK /\ ls' = [ls EXCEPT ![a.i].keys = @ \cup {nk}] /\ nk' = nk + 1 /\ UNCHANGED <<gone, ref, sols>>
  \/ a.o = "join" /\ nk <= MaxK /\ ls' = Append(ls, [bin |-> a.b, keys |-> {nk}]) /\ nk' = nk + 1 /\ UNCHANGED <<gone, ref, sols>>
  \/ a.o = "remove" /\ gone' = gone \cup {a.k} /\ ls' = (IF ls[a.i].keys = {a.k} THEN Drop(a.i) ELSE [ls EXCEPT ![a.i].keys = @ \ {a.k}]) /\ UNCHANGED <<nk, ref, sols>>
  \/ a.o = "close" /\ gone' = gone \cup ls[a.i].keys /\ ls' = Drop(a.i) /\ UNCHANGED <<nk, ref, sols>>
  \/ a.o = "sol" /\ Len(sols) < MaxS /\ sols' = Append(sols, [ls |-> ls, gone |-> gone]) /\ ref' = Len(sols) + 1 /\ UNCHANGED <<ls, nk, gone>>
  \/ a.o = "restore" /\ ls' = sols[a.s].ls /\ gone' = {k \in 1..(nk - 1) : \A n \in 1..Len(sols[a.s].ls) : k \notin sols[a.s].ls[n].keys}
                     /\ ref' = a.s /\ UNCHANGED <<nk, sols>>
Log(a) == IF Gen THEN hist' = Append(hist, a) ELSE UNCHANGED hist
Ask == /\ ~dead /\ \E a \in Reqs :
            IF BpAllows(S, a) THEN Do(a) /\ dead' = (Gen /\ Len(hist) + 1 >= stop) /\ Log(a) /\ UNCHANGED stop
            ELSE /\ Gen => Len(hist) + 1 >= stop
                 /\ dead' = TRUE /\ Log(a) /\ UNCHANGED <<ls, nk, gone, ref, sols, stop>>
Done == /\ Gen /\ dead /\ hist # <<>> /\ PrintT(<<"SCHED", ToJson(hist)>>) /\ hist' = <<>> /\ UNCHANGED <<ls, nk, gone, ref, sols, stop, dead>>
Next == Ask \/ Done
Spec == Init /\ [][Next]_vars
NoOverdraw == \A b \in 1..Len(Sup) : Stock(S, b) >= 0
OneItemPerHandle == \A m, n \in 1..Len(ls) : m # n => ls[m].keys \cap ls[n].keys = {}
GoneIsGone == \A n \in 1..Len(ls) : ls[n].keys \cap gone = {} /\ ls[n].keys # {}
RefExists == ref \in 0..Len(sols)
=============================================================================
