----------------------------- MODULE SearchTrace ----------------------------
(***************************************************************************)
(* Recorded searches of the real optimizer (C21).  Lengths are in logged   *)
(* units, rotations in 1/10000 rad, orientations of the file in tenths of  *)
(* degrees.  o is the outline to stay in, x the shapes to stay out of.     *)
(*                                                                         *)
(* grid: the sampler over the grid (cells c, samples, cells after being    *)
(*       tightened) and placements found free by other means               *)
(* budget: the same search with 1..n samples, and with local search        *)
(* find: the layouts searched one by one, and the search over all of them  *)
(* local: the sampler around a placement                                   *)
(* cost: costs compared; order: one bin, room for one of the items         *)
(* gain: how often local search improved on the uniform search             *)
(***************************************************************************)
EXTENDS Geo, Search, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lenient == "LENIENT" \in DOMAIN IOEnv
VARIABLES l

K == 3
(* rounding of a cost *)
CS == 24
Cost(P) == LET b == PolyBox(P) IN CostOf(b[3], b[4])
Free(e, P) == /\ Leaves(P, e.o, K) = "F"
              /\ \A i \in 1..Len(e.x) : Overlap(P, e.x[i], K) = "F"
Hits(e, P) == \/ Leaves(P, e.o, K) = "T"
              \/ \E i \in 1..Len(e.x) : Overlap(P, e.x[i], K) = "T"

Turn == 62832
Rad(a) == (a * 174533) \div 10000
SameAngle(a, r) == LET d == (Rad(a) - r) % Turn IN d <= 4 \/ d >= Turn - 4
Within(q, c) == q[1] >= c[1] - 2 /\ q[1] <= c[3] + 2 /\ q[2] >= c[2] - 2 /\ q[2] <= c[4] + 2
Covered(q, cs) == \E i \in 1..Len(cs) : Within(q, cs[i])
BoxArea(c) == (c[3] - c[1]) * (c[4] - c[2])
(* total area of the cells, in units of 64 squares; base: what it was before cells were taken away one by one *)
CoverOK(cs, cov, base) ==
  LET sum == SumSeq([i \in 1..Len(cs) |-> BoxArea(cs[i]) \div 64])
      per == SumSeq([i \in 1..Len(cs) |-> (cs[i][3] - cs[i][1]) + (cs[i][4] - cs[i][2]) + 64])
  IN Abs(sum - cov) <= per \div 64 + 2 + sum \div 500 + base \div 1000

RECURSIVE EffBound(_, _)
EffBound(e, k) == IF k = 0 THEN LET b == PolyBox(e.o) IN CostOf(b[3], b[4]) ELSE Min2(EffBound(e, k - 1), e.tight[k].b)
TightOK(e, k) ==
  LET eff == EffBound(e, k)
      t == e.tight[k]
      old == IF k = 1 THEN e.c ELSE e.tight[k - 1].c
  IN /\ {t.c[i] : i \in 1..Len(t.c)} \subseteq {old[i] : i \in 1..Len(old)}
     /\ \A i \in 1..Len(e.free) : (Cost(e.free[i].p) < eff - CS /\ Free(e, e.free[i].p)) => Covered(e.free[i].q, t.c)
     /\ \A i \in 1..Len(t.c) : CostOf(t.c[i][1] + e.rad, t.c[i][2] + e.rad) < Max2(eff, 0) + CS + 12 \/ eff = EffBound(e, 0)
     /\ CoverOK(t.c, t.cov, e.cov)
GridOK(e) ==
  /\ e.ok = 1
  /\ \A i \in 1..Len(e.free) : Free(e, e.free[i].p) => Covered(e.free[i].q, e.c)
  /\ e.none = 0 =>
       /\ Len(e.c) > 0
       /\ CoverOK(e.c, e.cov, 0)
       /\ \A i \in 1..Len(e.smp) :
            LET s == e.smp[i] IN
            /\ Covered(<<s[2], s[3]>>, e.c)
            /\ e.any = 1 \/ \E j \in 1..Len(e.or) : SameAngle(e.or[j], s[1])
       /\ e.cnt = e.n
       /\ IF e.any = 1 THEN 0..3 \subseteq {e.rots[i] : i \in 1..Len(e.rots)}
          ELSE \A j \in 1..Len(e.or) : \E i \in 1..Len(e.rots) : SameAngle(e.or[j], e.rots[i])
       /\ (e.few = 1 /\ \A i \in 1..Len(e.c) : e.c[i][3] - e.c[i][1] > 8 /\ e.c[i][4] - e.c[i][2] > 8) => e.half = 4 * Len(e.c)
       /\ \A k \in 1..Len(e.tight) : TightOK(e, k)

At(e, b) == IF b = 0 THEN 0 ELSE e.k[b]
CostAt(e, b) == IF At(e, b) = 0 THEN None ELSE Cost(e.d[At(e, b)])
BudgetOK(e) ==
  /\ e.ok = 1
  /\ \A b \in 1..e.n : e.k[b] \in {At(e, b - 1), At(e, b - 1) + 1} /\ e.used[b] <= b /\ e.who[b] = 1
  /\ \A j \in 1..Len(e.d) :
       /\ e.d[j] # <<>>
       /\ ~Hits(e, e.d[j])
       /\ j > 1 => Cost(e.d[j]) < Cost(e.d[j - 1]) + CS
  (* a better placement that was drawn is taken *)
  /\ e.faithful = 1 =>
       \A b \in 1..Len(e.smp) :
          (/\ e.k[b] = At(e, b - 1)
           /\ CostAt(e, b - 1) = None \/ Cost(e.smp[b]) < CostAt(e, b - 1) - CS) => ~Free(e, e.smp[b])
  (* local search does not make it worse *)
  /\ e.uni # <<>> => e.ls # <<>> /\ Cost(e.ls) < Cost(e.uni) + CS
  /\ e.ls # <<>> => ~Hits(e, e.ls)
  /\ e.uniu <= e.unib /\ e.lsu <= e.lsb

FindOK(e) ==
  LET i == First([j \in 1..Len(e.seq) |-> IF e.seq[j].f = 1 THEN 1 ELSE None]) IN
  /\ e.ok = 1
  /\ e.item = e.i
  /\ IF i = 0 THEN e.l = "" /\ e.p = <<>> ELSE e.l = e.seq[i].l /\ e.p = e.seq[i].p
  /\ e.used = e.sum /\ e.used <= e.n * Len(e.seq)
  /\ \A j \in 1..Len(e.seq) : e.seq[j].can = 0 => e.seq[j].f = 0

(* 400 draws from a normal distribution, in thousandths of its standard deviation *)
NormalOK(s) == Abs(s[1]) <= 300 /\ s[2] >= 700 /\ s[2] <= 1400 /\ s[3] <= 6500
LocalOK(e) ==
  /\ e.ok = 1
  /\ \A i \in 1..Len(e.rows) :
       LET w == e.rows[i] IN
       /\ w.coarse = 1 \/ (NormalOK(w.x) /\ NormalOK(w.y))
       /\ IF e.any = 1 THEN NormalOK(w.r) ELSE w.r[3] <= 100

Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
CostOK(e) ==
  /\ e.ok = 1 /\ e.eq = 1
  /\ \A i, j \in 1..Len(e.v) : e.cmp[i][j] = Sign(CostOf(e.v[i][1], e.v[i][2]) - CostOf(e.v[j][1], e.v[j][2]))

Extent(P) == LET n == Len(P) IN FoldMax([i \in 1..n |-> FoldMax([j \in 1..n |-> SqDist(P[i], P[j])], n)], n)
OrderOK(e) ==
  /\ e.ok = 1
  /\ Len(e.placed) = 1
  /\ \A i \in 1..Len(e.items) : Extent(e.items[i]) <= Extent(e.items[e.placed[1] + 1])
(* it improved 97 of 100 searches, and half of those with many local samples wandered far, when this was written *)
GainOK(e) == (e.n < 30 \/ 2 * e.better >= e.n) /\ (e.walks < 30 \/ 5 * e.far >= e.walks)

OK(e) == CASE e.e = "grid" -> GridOK(e) [] e.e = "budget" -> BudgetOK(e) [] e.e = "find" -> FindOK(e) [] e.e = "local" -> LocalOK(e)
           [] e.e = "cost" -> CostOK(e) [] e.e = "order" -> OrderOK(e) [] e.e = "gain" -> GainOK(e) [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF OK(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>) /\ Lenient
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
