------------------------------ MODULE HistGeo ------------------------------
(***************************************************************************)
(* Geometry of a history: containers (each a list of static hazards),      *)
(* candidate placements (items at fixed transformations) and probes        *)
(* (shapes that are checked after every step).  All verdicts a history     *)
(* needs are computed once, by Geo, when the history begins.               *)
(* Hazards are named by numbers: static hazard j of the current container  *)
(* is j, candidate i is 100 + i.                                           *)
(***************************************************************************)
EXTENDS Geo, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Lenient == "LENIENT" \in DOMAIN IOEnv   \* diagnosis only: report every rejected event
ToSet(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(ToSet(s)) = Len(s)

StatVerdict(w, b, j, P, bP) ==
  LET h == w.bins[b][j] IN
  IF h.t = "ext" THEN LeavesX(P, bP, h.p, PolyBox(h.p), w.k, w.x)
  ELSE OverlapX(P, bP, h.p, PolyBox(h.p), w.k, w.x)
CandVerdict(w, i, P, bP) ==
  LET Q == w.cands[i].p IN OverlapX(P, bP, Q, PolyBox(Q), w.k, w.x)

(* tables of the history that begins with event w *)
StatTab(w) == [b \in 1..Len(w.bins) |-> [n \in 1..Len(w.pr) |->
                 LET P == w.pr[n] bP == PolyBox(P) IN [j \in 1..Len(w.bins[b]) |-> StatVerdict(w, b, j, P, bP)]]]
CandTab(w) == [n \in 1..Len(w.pr) |-> LET P == w.pr[n] bP == PolyBox(P) IN [i \in 1..Len(w.cands) |-> CandVerdict(w, i, P, bP)]]

(* what enumerating the collisions of probe n may return, hazards "on" being present in container b *)
ColOK(st, ct, b, on, n, col) ==
  LET S == ToSet(col)
      ns == Len(st[b][n])
  IN /\ NoDup(col)
     /\ S \subseteq (1..ns) \cup {100 + i : i \in on}
     /\ \A j \in 1..ns : IF j \in S THEN st[b][n][j] # "F" ELSE st[b][n][j] # "T"
     /\ \A i \in on : IF (100 + i) \in S THEN ct[n][i] # "F" ELSE ct[n][i] # "T"
YesNoOK(st, ct, b, on, n, ans) ==
  CASE ans = 1 -> (\E j \in 1..Len(st[b][n]) : st[b][n][j] # "F") \/ (\E i \in on : ct[n][i] # "F")
    [] ans = 0 -> (\A j \in 1..Len(st[b][n]) : st[b][n][j] # "T") /\ (\A i \in on : ct[n][i] # "T")
    [] OTHER -> FALSE

(* distances for the proximity grid *)
Relevant(h, q) == h.t = "zone" => (q = -1 \/ h.q < q)
StatDist(w, b, j, p) ==
  LET h == w.bins[b][j]
      bb == PolyBox(h.p)
      v == PointInB(p, h.p, bb, 1)
      inside == IF h.t = "ext" THEN v = "F" ELSE v = "T"
  IN IF inside THEN 0 ELSE DistBoundary(p, h.p)
PoleDist(p, c) == Max2(0, ISqrt(SqDist(p, <<c[1], c[2]>>)) - c[3])
CandDist(w, i, p) == LET ps == w.poles[i] IN FoldMin([m \in 1..Len(ps) |-> PoleDist(p, ps[m])], Len(ps))
CellDist(w, b, on, p, q) ==
  LET ds == {StatDist(w, b, j, p) : j \in {x \in 1..Len(w.bins[b]) : Relevant(w.bins[b][x], q)}}
            \cup {CandDist(w, i, p) : i \in on}
  IN CHOOSE d \in ds : \A x \in ds : d <= x
(* c = <<x, y, quality, value>> *)
CellOK(w, b, on, c) == c[4] >= 0 /\ Abs(c[4] - CellDist(w, b, on, <<c[1], c[2]>>, c[3])) <= 4
=============================================================================
