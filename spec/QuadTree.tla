------------------------------ MODULE QuadTree ------------------------------
(***************************************************************************)
(* The tree of the collision detection engine, node by node, on a square   *)
(* of N x N pixels.  A hazard is a set of pixels (its inside or, for the   *)
(* outside of a container, its complement); its boundary consists of the   *)
(* unit segments between pixels that are in and pixels that are out.       *)
(*                                                                         *)
(* A node knows, per hazard that is present, whether it covers the node    *)
(* entirely or which boundary segments touch the node; presence in the     *)
(* four quadrants is derived from the parent's, with the two shortcuts of  *)
(* the code (a hazard within one quadrant; a quadrant without boundary     *)
(* takes over what a resolved neighbour has).  Registering, removing and   *)
(* switching hazards on and off work as in the code: subtrees appear with  *)
(* the first partial hazard and are dropped with the last.                 *)
(*                                                                         *)
(* Checked after every history: what the tree says is certain is true,     *)
(* every crossing of a boundary is found, and all answers are those of a   *)
(* tree freshly built with the hazards that are switched on.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Depth, Haz, Family
Pix == (0..N - 1) \X (0..N - 1)

VARIABLES px, ext, on, off, tree
vars == <<px, ext, on, off, tree>>

(* ---- geometry ---- *)
Bnd(A) == {<<"v", i, j>> : i \in 0..N, j \in 0..N - 1} \cup {<<"h", i, j>> : i \in 0..N - 1, j \in 0..N}
Boundary(A) == {s \in Bnd(A) :
   IF s[1] = "v" THEN (<<s[2] - 1, s[3]>> \in A) # (<<s[2], s[3]>> \in A)
                 ELSE (<<s[2], s[3] - 1>> \in A) # (<<s[2], s[3]>> \in A)}
(* nodes are <<x, y, size>> *)
Touches(s, b) == IF s[1] = "v" THEN b[1] <= s[2] /\ s[2] <= b[1] + b[3] /\ b[2] <= s[3] + 1 /\ s[3] <= b[2] + b[3]
                               ELSE b[2] <= s[3] /\ s[3] <= b[2] + b[3] /\ b[1] <= s[2] + 1 /\ s[2] <= b[1] + b[3]
InNode(p, b) == b[1] <= p[1] /\ p[1] < b[1] + b[3] /\ b[2] <= p[2] /\ p[2] < b[2] + b[3]
Within(A, b) == \A p \in A : InNode(p, b)
Half(b) == b[3] \div 2
Quads(b) == << <<b[1] + Half(b), b[2] + Half(b), Half(b)>>, <<b[1], b[2] + Half(b), Half(b)>>,
               <<b[1], b[2], Half(b)>>, <<b[1] + Half(b), b[2], Half(b)>> >>
Beside == << <<2, 4>>, <<1, 3>>, <<2, 4>>, <<1, 3>> >>
Inside(h, p) == (p \in px[h]) # ext[h]

(* queries run through pixel centres: <<"x", row, from, to>> or <<"y", column, from, to>>; a point is one with from = to *)
Path(q) == IF q[1] = "x" THEN {<<i, q[2]>> : i \in q[3]..q[4]} ELSE {<<q[2], j>> : j \in q[3]..q[4]}
Crosses(q, s) == IF q[1] = "x" THEN s[1] = "v" /\ s[3] = q[2] /\ q[3] < s[2] /\ s[2] <= q[4]
                               ELSE s[1] = "h" /\ s[2] = q[2] /\ q[3] < s[3] /\ s[3] <= q[4]
Meets(q, b) == \E p \in Path(q) : InNode(p, b)
Queries == {<<d, r, a, c>> \in {"x", "y"} \X (0..N - 1) \X (0..N - 1) \X (0..N - 1) : a <= c}

(* ---- presence ---- *)
Root == <<0, 0, N>>
Leaf(b, lv) == [b |-> b, lv |-> lv, hz |-> {}, kids |-> <<>>]
Whole(h) == [h |-> h, pr |-> "P", ed |-> Boundary(px[h]), act |-> TRUE]
Nothing == [h |-> 0, pr |-> "N", ed |-> {}, act |-> FALSE]
Unknown == "?"
RECURSIVE Resolve(_, _, _, _)
Resolve(i, pr, z, qs) ==
  IF i > 4 THEN pr
  ELSE LET n1 == pr[Beside[i][1]]  n2 == pr[Beside[i][2]]
           r == IF pr[i] # Unknown THEN pr[i]
                ELSE IF n1 = "E" \/ n2 = "E" THEN "E"
                ELSE IF n1 = "N" \/ n2 = "N" THEN "N"
                ELSE IF Inside(z.h, <<qs[i][1], qs[i][2]>>) THEN "E" ELSE "N"
       IN Resolve(i + 1, [pr EXCEPT ![i] = r], z, qs)
Constrict(z, qs) ==
  IF z.pr = "E" THEN [i \in 1..4 |-> z]
  ELSE IF \E i \in 1..4 : Within(px[z.h], qs[i])
       THEN LET k == CHOOSE i \in 1..4 : Within(px[z.h], qs[i]) IN [i \in 1..4 |-> IF i = k THEN z ELSE Nothing]
       ELSE LET ed == [i \in 1..4 |-> {s \in z.ed : Touches(s, qs[i])}]
                pr == Resolve(1, [i \in 1..4 |-> IF ed[i] # {} THEN "P" ELSE Unknown], z, qs)
            IN [i \in 1..4 |-> [h |-> z.h, pr |-> pr[i], ed |-> ed[i], act |-> z.act]]

RECURSIVE Register(_, _), PassAll(_, _)
PassOn(kids, z) == LET c == Constrict(z, [i \in 1..4 |-> kids[i].b]) IN
                   [i \in 1..4 |-> IF c[i].pr = "N" THEN kids[i] ELSE Register(kids[i], c[i])]
PassAll(kids, zs) == IF zs = {} THEN kids ELSE LET z == CHOOSE z \in zs : TRUE IN PassAll(PassOn(kids, z), zs \ {z})
Register(n, z) ==
  LET grow == n.kids = <<>> /\ n.lv > 0 /\ z.pr = "P"
      k0 == IF grow THEN PassAll([i \in 1..4 |-> Leaf(Quads(n.b)[i], n.lv - 1)], n.hz) ELSE n.kids
  IN [n EXCEPT !.kids = IF k0 = <<>> THEN <<>> ELSE PassOn(k0, z), !.hz = @ \cup {z}]
RECURSIVE Deregister(_, _), Switch(_, _, _)
Deregister(n, h) ==
  LET rest == {z \in n.hz : z.h # h} IN
  IF rest = n.hz THEN n
  ELSE IF n.kids = <<>> THEN [n EXCEPT !.hz = rest]
  ELSE IF \A z \in rest : z.pr = "E" THEN [n EXCEPT !.hz = rest, !.kids = <<>>]
  ELSE [n EXCEPT !.hz = rest, !.kids = [i \in 1..4 |-> Deregister(n.kids[i], h)]]
Switch(n, h, a) ==
  IF \A z \in n.hz : z.h # h THEN n
  ELSE [n EXCEPT !.hz = {IF z.h = h THEN [z EXCEPT !.act = a] ELSE z : z \in n.hz},
                 !.kids = IF n.kids = <<>> THEN <<>> ELSE [i \in 1..4 |-> Switch(n.kids[i], h, a)]]

(* ---- answers ---- *)
Seen(n, ig) == {z \in n.hz : z.act /\ z.h \notin ig}
RECURSIVE Certain(_, _, _), CertainWith(_, _, _), Collides(_, _, _), Collect(_, _, _)
Or3(S) == IF "T" \in S THEN "T" ELSE IF "U" \in S THEN "U" ELSE "F"
Certain(n, q, ig) ==
  LET zs == Seen(n, ig) IN
  IF zs = {} \/ ~Meets(q, n.b) THEN "F"
  ELSE IF \E z \in zs : z.pr = "E" THEN "T"
  ELSE IF n.kids = <<>> THEN "U" ELSE Or3({Certain(n.kids[i], q, ig) : i \in 1..4})
CertainWith(n, q, h) ==
  LET zs == {z \in n.hz : z.act /\ z.h = h} IN
  IF zs = {} \/ ~Meets(q, n.b) THEN "F"
  ELSE IF \E z \in zs : z.pr = "E" THEN "T"
  ELSE IF n.kids = <<>> THEN "U" ELSE Or3({CertainWith(n.kids[i], q, h) : i \in 1..4})
Collides(n, q, ig) ==
  LET zs == Seen(n, ig) IN
  /\ zs # {} /\ Meets(q, n.b)
  /\ \/ \E z \in zs : z.pr = "E"
     \/ IF n.kids # <<>> THEN \E i \in 1..4 : Collides(n.kids[i], q, ig)
        ELSE \E z \in zs, s \in UNION {y.ed : y \in zs} : s \in z.ed /\ Crosses(q, s)
Collect(n, q, ig) ==
  LET zs == Seen(n, ig)  en == {z.h : z \in {y \in zs : y.pr = "E"}} IN
  IF zs = {} \/ ~Meets(q, n.b) THEN {}
  ELSE en \cup (IF {z.h : z \in zs} = en THEN {}
                ELSE IF n.kids # <<>> THEN UNION {Collect(n.kids[i], q, ig \cup en) : i \in 1..4}
                ELSE {z.h : z \in {y \in zs : \E s \in y.ed : Crosses(q, s)}})
RECURSIVE Built(_, _)
Built(n, hs) == IF hs = {} THEN n ELSE LET h == CHOOSE h \in hs : TRUE IN Built(Register(n, Whole(h)), hs \ {h})

(* ---- behaviour ---- *)
(* the outline of a container reaches from side to side of the root in one direction *)
Spans(A) == (\E p, r \in A : p[1] = 0 /\ r[1] = N - 1) \/ (\E p, r \in A : p[2] = 0 /\ r[2] = N - 1)
Init == /\ px \in [Haz -> Family] /\ ext \in [Haz -> BOOLEAN]
        /\ \A h \in Haz : ext[h] => Spans(px[h])
        /\ on = {} /\ off = {} /\ tree = Leaf(Root, Depth)
Reg(h) == /\ h \notin on \cup off /\ on' = on \cup {h} /\ tree' = Register(tree, Whole(h)) /\ UNCHANGED <<px, ext, off>>
Dereg(h) == /\ h \in on \cup off /\ on' = on \ {h} /\ off' = off \ {h} /\ tree' = Deregister(tree, h) /\ UNCHANGED <<px, ext>>
Deact(h) == /\ h \in on /\ on' = on \ {h} /\ off' = off \cup {h} /\ tree' = Switch(tree, h, FALSE) /\ UNCHANGED <<px, ext>>
Act(h) == /\ h \in off /\ off' = off \ {h} /\ on' = on \cup {h} /\ tree' = Switch(tree, h, TRUE) /\ UNCHANGED <<px, ext>>
Next == \E h \in Haz : Reg(h) \/ Dereg(h) \/ Deact(h) \/ Act(h)
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
Hits(h, q) == \E p \in Path(q) : Inside(h, p)
Cuts(h, q) == \E s \in Boundary(px[h]) : Crosses(q, s)
Igs == {{}} \cup {{h} : h \in Haz}
CertainOK == \A q \in Queries, ig \in Igs :
   /\ Certain(tree, q, ig) = "T" => \E h \in on \ ig : Hits(h, q)
   /\ Certain(tree, q, ig) = "F" => \A h \in on \ ig : ~Hits(h, q)
CertainWithOK == \A q \in Queries, h \in Haz :
   /\ CertainWith(tree, q, h) = "T" => h \in on /\ Hits(h, q)
   /\ CertainWith(tree, q, h) = "F" => h \notin on \/ ~Hits(h, q)
CollideOK == \A q \in Queries, ig \in Igs :
   LET c == Collect(tree, q, ig) IN
   /\ Collides(tree, q, ig) = (c # {})
   /\ c \subseteq {h \in on \ ig : Hits(h, q)}
   /\ {h \in on \ ig : Cuts(h, q)} \subseteq c
HistoryFree == LET f == Built(Leaf(Root, Depth), on) IN
   \A q \in Queries, ig \in Igs : /\ Certain(tree, q, ig) = Certain(f, q, ig)
                                  /\ Collect(tree, q, ig) = Collect(f, q, ig)
                                  /\ \A h \in on : CertainWith(tree, q, h) = CertainWith(f, q, h)
(* no hazard that is gone is left anywhere *)
RECURSIVE Names(_)
Names(n) == {z.h : z \in n.hz} \cup (IF n.kids = <<>> THEN {} ELSE UNION {Names(n.kids[i]) : i \in 1..4})
NothingLeft == Names(tree) = on \cup off

(* families of shapes *)
Rect(x0, y0, x1, y1) == {p \in Pix : x0 <= p[1] /\ p[1] <= x1 /\ p[2] >= y0 /\ p[2] <= y1}
Rects == {Rect(x0, y0, x1, y1) : x0 \in 0..N - 1, y0 \in 0..N - 1, x1 \in 0..N - 1, y1 \in 0..N - 1} \ {{}}
AllSets == {s \in SUBSET Pix : Cardinality(s) \in 1..4}
Trio == {Rect(1, 1, 2, 2), Rect(0, 0, N - 2, N - 1) \ Rect(1, 1, 2, 2), Rect(0, 1, N - 1, N - 2)}
SmallSets == {S \in SUBSET Rect(1, 1, 3, 3) : S # {}} \cup {S \in SUBSET Rect(0, 0, 2, 2) : S # {}}
Few == {Rect(0, 0, N - 1, N - 1), Rect(0, 1, N - 1, N - 2), Rect(1, 1, 2, 2), Rect(0, 0, N - 2, N - 1) \ Rect(1, 1, 2, 2), Rect(2, 0, 2, 3) \cup Rect(0, 2, 2, 2), Rect(0, 0, 0, 0)}
=============================================================================
