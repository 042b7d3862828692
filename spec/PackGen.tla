------------------------------ MODULE PackGen ------------------------------
(* Packing as a transition system together with the way the implementation   *)
(* restores solutions: unmodified layouts relative to a reference solution   *)
(* are left alone, removed ones are kept aside for reuse, the rest is rebuilt. *)
(* Exhaustively checked: the shortcut always gives exactly the solution, and  *)
(* solutions built on an earlier one are exact.  With -simulate it is the     *)
(* source of schedules for the real problem.                                  *)
EXTENDS Packing, TLC, Json
CONSTANTS NC, NB, NS, NL, Dem, Sup, ItOf, MaxLen, Gen
VARIABLES p,        \* the abstract problem
          nid,      \* next layout id
          sols,     \* slot -> [sid, st]: what the solution must be
          impl,     \* the layouts as the implementation has them: id -> items (contents only)
          unmod, ref, aside, isol, nsid, hist
vars == <<p, nid, sols, impl, unmod, ref, aside, isol, nsid, hist>>
C == 1..NC
B == 1..NB
It(c) == ItOf[c]
None == [sid |-> 0, st |-> <<>>]
Log(o) == IF Gen THEN hist' = Append(hist, o) ELSE UNCHANGED hist
NIn(x, i) == Cardinality({y \in x.items : It(y[2]) = i})
Init == /\ p = Start(Dem, Sup) /\ nid = 1 /\ sols = [s \in 1..NS |-> None] /\ impl = {} /\ unmod = {} /\ ref = 0
        /\ aside = {} /\ isol = [s \in 1..NS |-> {}] /\ nsid = 1 /\ hist = <<>>
(* implementation side of a change to layout id: contents become ls (a set), id is no longer unmodified *)
Changed(id) == unmod' = unmod \ {id}
Rank(id) == Cardinality({x \in Ids(p) : x <= id})

Open(b, c) == /\ nid <= NL /\ CanOpen(p, b, nid) /\ p' = Opened(p, b, nid, c, c, It(c)) /\ nid' = nid + 1
              /\ impl' = impl \cup {[id |-> nid, bin |-> b, items |-> {<<c, c>>}]} /\ Changed(nid)
              /\ UNCHANGED <<sols, ref, aside, isol, nsid>> /\ Log([o |-> "open", b |-> b, i |-> c])
Place(id, c) == /\ CanPlace(p, id, c, c) /\ p' = Placed(p, id, c, c, It(c))
                /\ impl' = {IF x.id = id THEN [x EXCEPT !.items = @ \cup {<<c, c>>}] ELSE x : x \in impl} /\ Changed(id)
                /\ UNCHANGED <<nid, sols, ref, aside, isol, nsid>> /\ Log([o |-> "place", l |-> Rank(id), i |-> c])
Remove(id, c, now) ==
  /\ CanRemove(p, id, c, c) /\ p' = Removed(p, id, c, c, It(c))
  /\ LET y == CHOOSE x \in impl : x.id = id
         z == [y EXCEPT !.items = @ \ {<<c, c>>}]
     IN IF z.items = {} THEN impl' = impl \ {y} /\ aside' = aside \cup {z}
        ELSE impl' = (impl \ {y}) \cup {z} /\ UNCHANGED aside
  /\ Changed(id) /\ UNCHANGED <<nid, sols, ref, isol, nsid>>
  /\ Log([o |-> "remove", l |-> Rank(id), i |-> c, now |-> IF now THEN 1 ELSE 0])
Close(id) == /\ id \in Ids(p) /\ p' = Closed(p, id, LAMBDA i : NIn(Lay(p, id), i))
             /\ impl' = {x \in impl : x.id # id} /\ aside' = aside \cup {x \in impl : x.id = id} /\ Changed(id)
             /\ UNCHANGED <<nid, sols, ref, isol, nsid>> /\ Log([o |-> "rml", l |-> Rank(id)])
(* a solution; on the basis of the reference solution, unmodified layouts are taken over from it *)
Sol(s, old) ==
  /\ old => ref # 0
  /\ sols' = [sols EXCEPT ![s] = [sid |-> nsid, st |-> p]]
  /\ LET oldLs == IF old /\ \E t \in 1..NS : sols[t].sid = ref THEN isol[CHOOSE t \in 1..NS : sols[t].sid = ref] ELSE impl
         snap == {IF old /\ x.id \in unmod THEN CHOOSE y \in oldLs : y.id = x.id ELSE x : x \in impl}
     IN isol' = [isol EXCEPT ![s] = snap]
  /\ unmod' = {x.id : x \in impl} /\ ref' = nsid /\ nsid' = IF Gen THEN nsid + 1 ELSE (nsid % (2 * NS)) + 1
  /\ (~Gen => \A t \in 1..NS : sols[t].sid # nsid)
  /\ UNCHANGED <<p, nid, impl, aside>> /\ Log([o |-> "sol", s |-> s, old |-> IF old THEN 1 ELSE 0])
Restore(s) ==
  /\ sols[s] # None /\ p' = sols[s].st
  /\ impl' = IF ref # sols[s].sid THEN isol[s]
             ELSE LET keep == {x \in impl : \E y \in isol[s] : y.id = x.id}
                  IN {IF x.id \in unmod THEN x ELSE CHOOSE y \in isol[s] : y.id = x.id : x \in keep}
                     \cup {y \in isol[s] : \A x \in impl : x.id # y.id}
  /\ unmod' = {x.id : x \in isol[s]} /\ ref' = sols[s].sid /\ aside' = {}
  /\ UNCHANGED <<nid, sols, isol, nsid>> /\ Log([o |-> "restore", s |-> s])
Flush == Gen /\ UNCHANGED <<p, nid, sols, impl, unmod, ref, aside, isol, nsid>> /\ Log([o |-> "flush"])
Step == \/ \E b \in B, c \in C : Open(b, c)
        \/ \E id \in Ids(p) : Close(id) \/ \E c \in C : Place(id, c) \/ Remove(id, c, TRUE) \/ (Gen /\ Remove(id, c, FALSE))
        \/ \E s \in 1..NS : Restore(s) \/ \E old \in BOOLEAN : Sol(s, old)
        \/ Flush
Done == /\ Gen /\ Len(hist) = MaxLen /\ PrintT(<<"SCHED", ToJson(hist)>>)
        /\ hist' = Append(hist, [o |-> "end"]) /\ UNCHANGED <<p, nid, sols, impl, unmod, ref, aside, isol, nsid>>
Next == Done \/ ((Gen => Len(hist) < MaxLen) /\ Step)
Spec == Init /\ [][Next]_vars

ConservedInv == Conserved(p, Dem, Sup, It) /\ \A b \in B : p.stock[b] >= 0
NoEmptyLayout == \A x \in p.ls : x.items # {}
ImplExact == impl = p.ls                                              \* also right after any restore
SolExact == \A s \in 1..NS : sols[s] # None => isol[s] = sols[s].st.ls
UnmodRight == \A s \in 1..NS : sols[s].sid = ref /\ ref # 0 =>
                 \A id \in unmod : \E x \in impl : x.id = id /\ x \in isol[s]
SolStable == [][\A s \in 1..NS : sols'[s] # sols[s] => \E old \in BOOLEAN : Sol(s, old)]_vars
=============================================================================
