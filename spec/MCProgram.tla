----------------------------- MODULE MCProgram -----------------------------
(***************************************************************************)
(* Histories of runs in one scratch folder; generator of requests.  A file *)
(* is represented by what was put into it: instance, configuration, run.   *)
(***************************************************************************)
EXTENDS Program, Json
CONSTANTS Depth, Many
Inputs == {[src |-> "a.json", stem |-> "a"], [src |-> "a_0.json", stem |-> "a_0"], [src |-> "b.c.json", stem |-> "b.c"],
           [src |-> "plain", stem |-> "plain"], [src |-> "sub/a.json", stem |-> "a"]}
Dirs == {"o/", "p/deep/er/", ""}
VARIABLES fs, last, h
vars == <<fs, last, h>>
(* written files are inputs as well: they repeat the instance *)
Again == {[src |-> Sol(q), stem |-> "sol_" \o q.stem] : q \in {r \in DOMAIN last : r.stem \in {"a", "b.c"}}}
Req(a, in, cf, src, dir) == [a |-> a, in |-> in, cf |-> cf, src |-> src.src, stem |-> src.stem, dir |-> dir]
A0 == [src |-> "a.json", stem |-> "a"]
Requests ==
  {Req("full", "good", c, s, d) : c \in {"none", "good", "free"}, s \in Inputs \cup Again, d \in Dirs}
  \cup {Req("full", i, "good", A0, d) : i \in {"missing", "garbage", "lacking", "both"}, d \in Dirs}
  \cup {Req("full", "good", c, A0, d) : c \in {"missing", "garbage", "lacking"}, d \in Dirs}
  \cup {Req(a, "good", "good", A0, "o/") : a \in {"noin", "nosol", "unknown"}}
(* the instance a source stands for *)
Inst(src) == IF src \in DOMAIN fs THEN fs[src][1] ELSE src
Key(q) == [dir |-> q.dir, stem |-> q.stem]
Init == fs = <<>> /\ last = <<>> /\ h = <<>>
Run(q, n) ==
  /\ h' = Append(h, q)
  /\ IF Valid(q)
     THEN LET c == <<Inst(q.src), q.cf, Len(h)>>
              w == [x \in Written(q, n) |-> c]
          IN fs' = w @@ fs /\ last' = (Key(q) :> <<c, n>>) @@ last
     ELSE UNCHANGED <<fs, last>>
Next == Len(h) < Depth /\ \E q \in Requests : \E n \in IF Valid(q) THEN 1..Many ELSE {1} : Run(q, n)
Spec == Init /\ [][Next]_vars
(* what a run wrote stays until the same input name is run into the same folder again *)
Kept == \A k \in DOMAIN last : \A x \in Written(k, last[k][2]) : x \in DOMAIN fs /\ fs[x] = last[k][1]
(* whatever was written, through however many files, is about one of the inputs *)
Rooted == \A x \in DOMAIN fs : fs[x][1] \in {i.src : i \in Inputs}
Emit == Len(h) = Depth => PrintT(<<"SCHED", ToJson(h)>>)
=============================================================================
