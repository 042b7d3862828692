---------------------------- MODULE ProgramTrace ----------------------------
(* Runs of the real program: the files before and after, what the written   *)
(* files say, and what the library does for the same input (C23).           *)
EXTENDS Program, Json, IOUtils
VARIABLE l
Lenient == "LENIENT" \in DOMAIN IOEnv
Trace == ndJsonDeserialize(IOEnv.TRACE)
ToSet(s) == {s[i] : i \in 1..Len(s)}
Names(S) == {x[1] : x \in S}
RunOK(e) ==
  LET B == ToSet(e.before)
      A == ToSet(e.after)
      W == Written(e, e.lay)
  IN IF ~Valid(e) THEN e.rc # 0 /\ A = B                    \* refused: nothing written, nothing lost
     ELSE /\ e.rc = 0
          /\ e.lay >= 0
          /\ W \subseteq Names(A)
          /\ Names(A) \subseteq Names(B) \cup W              \* nothing else
          /\ \A x \in B : x[1] \in W \/ x \in A \/ (x[1] \in Stale(e, e.lay, 60) /\ x[1] \notin Names(A))
          /\ e.inst = 1                                      \* the instance as given ...
          /\ e.cfg = 1                                       \* ... and the configuration used
          /\ Len(e.svg) = e.lay
          /\ e.cf = "free" \/ (e.sol = e.lib /\ e.svg = e.libsvg)
          /\ e.lg = "off" => e.so = 0
EventOK(e) == CASE e.e = "begin" -> TRUE [] e.e = "run" -> RunOK(e) [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF EventOK(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>) /\ Lenient
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
