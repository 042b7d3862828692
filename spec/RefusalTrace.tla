---------------------------- MODULE RefusalTrace ----------------------------
(* Recorded requests and data, and whether the code took them: exactly what   *)
(* Refusal allows.  The state before a request is the one observed after the  *)
(* request before; stock and reference are the specification's.               *)
EXTENDS Refusal, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Lenient == "LENIENT" \in DOMAIN IOEnv
VARIABLES l, kind, st
vars == <<l, kind, st>>
Lays(x) == [n \in 1..Len(x) |-> [id |-> x[n].id, bin |-> x[n].bin, keys |-> ToSet(x[n].keys)]]
Is(e, b) == e.ok = (IF b THEN 1 ELSE 0)
Reject(ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, l>>) /\ Lenient
Init == l = 1 /\ kind = "" /\ st = [ls |-> <<>>, sup |-> <<>>, ni |-> 0, ref |-> 0]
Begin == /\ l <= Len(Trace) /\ Trace[l].e = "begin" /\ kind' = Trace[l].kind /\ l' = l + 1
         /\ st' = [ls |-> Lays(Trace[l].ls), sup |-> Trace[l].sup, ni |-> Trace[l].ni, ref |-> 0]
(* a refused request ends the history: the next line begins another one *)
Req == /\ l <= Len(Trace) /\ Trace[l].e = "req"
       /\ Reject(Is(Trace[l], Allows(kind, st, Trace[l])))
       /\ l' = l + 1 /\ UNCHANGED kind
       /\ st' = [st EXCEPT !.ls = IF Trace[l].ok = 1 THEN Lays(Trace[l].ls) ELSE @,
                           !.ref = IF Trace[l].ok = 1 /\ Trace[l].o = "sol" THEN Trace[l].s
                                   ELSE IF Trace[l].ok = 1 /\ Trace[l].o = "restore" /\ kind = "bp" THEN Trace[l].s ELSE @]
DataOK(e) ==
  CASE e.e = "poly" -> IF Outline(e.p) THEN e.sim = 1 => e.ok = 1 ELSE e.ok = 0
    [] e.e = "edge" -> Is(e, e.a # e.b)
    [] e.e = "zone" -> Is(e, e.q < NQ)
    [] e.e = "bin" -> Is(e, \A m, n \in 1..Len(e.q) : e.q[m] < NQ /\ (m # n => e.q[m] # e.q[n]))
    [] e.e = "ids" -> Is(e, (\A n \in 1..Len(e.it) : e.it[n] = n - 1) /\ (\A n \in 1..Len(e.bi) : e.bi[n] = n - 1))
    [] e.e = "nan" -> Is(e, e.nan = 0)
    [] e.e = "file" -> Is(e, FileAllows(e))
    [] e.e = "sfile" -> Is(e, SolAllows(e))
    [] OTHER -> FALSE
Data == /\ l <= Len(Trace) /\ Trace[l].e \notin {"begin", "req"}
        /\ Reject(DataOK(Trace[l])) /\ l' = l + 1 /\ UNCHANGED <<kind, st>>
Next == Begin \/ Req \/ Data
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
