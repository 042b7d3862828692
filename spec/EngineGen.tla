----------------------------- MODULE EngineGen -----------------------------
(* Engine as a transition system over NH hazards, NG engines and NS snapshot *)
(* slots.  Used exhaustively (invariants below) and, with -simulate, as the  *)
(* source of schedules that the harness replays on the real engine.          *)
EXTENDS Engine, TLC, Json
CONSTANTS NH, NG, NS, MaxLen, Gen
VARIABLES eng, snap, hist
vars == <<eng, snap, hist>>
H == 1..NH
G == 1..NG
S == 1..NS
None == {-1}

Log(o) == IF Gen THEN hist' = Append(hist, o) ELSE UNCHANGED hist
Init == /\ eng = [g \in G |-> IF g = 1 THEN Fresh ELSE [on |-> None, up |-> {}, gp |-> {}]]
        /\ snap = [s \in S |-> None]
        /\ hist = <<>>
Live(g) == eng[g].on # None

Reg(g, h) == /\ Live(g) /\ CanRegister(eng[g], h)
             /\ eng' = [eng EXCEPT ![g] = Registered(@, h)] /\ UNCHANGED snap
             /\ Log([o |-> "reg", g |-> g, i |-> h])
Dereg(g, h, now) == /\ Live(g) /\ CanDeregister(eng[g], h)
                    /\ eng' = [eng EXCEPT ![g] = Deregistered(@, h, now)] /\ UNCHANGED snap
                    /\ Log([o |-> "dereg", g |-> g, i |-> h, now |-> IF now THEN 1 ELSE 0])
Commit(g) == /\ Live(g) /\ eng' = [eng EXCEPT ![g] = Committed(@)] /\ UNCHANGED snap
             /\ Log([o |-> "commit", g |-> g])
Flush(g) == /\ Live(g) /\ eng' = [eng EXCEPT ![g] = Flushed(@)] /\ UNCHANGED snap
            /\ Log([o |-> "flush", g |-> g])
Snap(g, s) == /\ Live(g) /\ snap' = [snap EXCEPT ![s] = SnapOf(eng[g])]
              /\ eng' = [eng EXCEPT ![g] = Committed(@)]
              /\ Log([o |-> "snap", g |-> g, s |-> s])
Restore(g, s) == /\ Live(g) /\ snap[s] # None
                 /\ eng' = [eng EXCEPT ![g] = Restored(@, snap[s])] /\ UNCHANGED snap
                 /\ Log([o |-> "restore", g |-> g, s |-> s])
Copy(g, f) == /\ Live(g) /\ f # g
              /\ eng' = [eng EXCEPT ![f] = eng[g]] /\ UNCHANGED snap
              /\ Log([o |-> "copy", g |-> g, f |-> f])
Step == \/ \E g \in G, h \in H : Reg(g, h) \/ (\E now \in BOOLEAN : Dereg(g, h, now))
        \/ \E g \in G : Commit(g) \/ Flush(g) \/ \E s \in S : Snap(g, s) \/ Restore(g, s)
        \/ \E g, f \in G : Copy(g, f)
(* the schedule is printed when it is complete *)
Done == /\ Gen /\ Len(hist) = MaxLen /\ PrintT(<<"SCHED", ToJson(hist)>>)
        /\ hist' = Append(hist, [o |-> "end"]) /\ UNCHANGED <<eng, snap>>
Next == Done \/ ((Gen => Len(hist) < MaxLen) /\ Step)
Spec == Init /\ [][Next]_vars

Inv == /\ \A g \in G : Live(g) => eng[g].on \subseteq H /\ eng[g].gp \subseteq H /\ eng[g].up \subseteq H \ eng[g].on
       /\ \A g \in G : Live(g) => ~(MustRead(eng[g]) /\ MustRefuse(eng[g]))
(* restoring brings back the moment of the snapshot *)
RestoreProp == [][\A g \in G, s \in S : Restore(g, s) => eng'[g].on = snap[s] /\ MustRead(eng'[g]) /\ ~Pending(eng'[g])]_vars
(* an operation on one engine never affects another one *)
Independent == [][\A g \in G : eng'[g] # eng[g] => \A f \in G \ {g} : eng'[f] = eng[f]]_vars
(* taken snapshots only change by taking a new one *)
SnapStable == [][\A s \in S : snap'[s] # snap[s] => \E g \in G : snap'[s] = eng[g].on]_vars
=============================================================================
