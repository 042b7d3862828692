------------------------------ MODULE SearchGen -----------------------------
(* every search of a few layouts with a few cells and samples *)
EXTENDS Search
CONSTANTS NLay, NCells, MaxCost, Budget

Cells == 1..NCells
VARIABLES bound,    \* lower bound of every cell, the same in all layouts
          lay,      \* the layout being searched
          active, best, used, drawn,   \* of this layout
          res       \* outcomes of the layouts searched so far
vars == <<bound, lay, active, best, used, drawn, res>>

Init == /\ bound \in [Cells -> 0..MaxCost - 1]
        /\ lay = 1 /\ active \in SUBSET Cells /\ best = None /\ used = 0 /\ drawn = {} /\ res = <<>>
(* costs lie above the bound of their cell *)
Sample == /\ lay <= NLay /\ used < Budget /\ active # {}
          /\ \E k \in active : \E c \in bound[k] + 1..MaxCost : \E f \in BOOLEAN :
               LET b == Keep(best, c, f) IN
               /\ best' = b
               /\ drawn' = IF f THEN drawn \cup {c} ELSE drawn
               /\ active' = Tightened(active, bound, b)
          /\ used' = used + 1
          /\ UNCHANGED <<bound, lay, res>>
(* the budget is spent, or there is nothing to draw from *)
Done == /\ lay <= NLay /\ (used = Budget \/ (active = {} /\ used = 0))
        /\ res' = Append(res, best)
        /\ lay' = IF best # None THEN NLay + 1 ELSE lay + 1
        /\ active' \in SUBSET Cells
        /\ best' = None /\ used' = 0 /\ drawn' = {}
        /\ UNCHANGED bound
Next == Sample \/ Done \/ (lay > NLay /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

(* what is kept is the cheapest feasible placement seen *)
BestIsCheapest == IF drawn = {} THEN best = None ELSE best \in drawn /\ \A c \in drawn : best <= c
(* dropping cells never leaves the search without a cell to draw from *)
NeverStuck == used > 0 => active # {}
(* only the last layout searched has a placement *)
StopsAtFirst == \A i \in 1..Len(res) : i < Len(res) => res[i] = None
(* a cell is dropped only if nothing it can produce is cheaper *)
DroppedRightly == [][Sample => \A k \in active \ active' : best' # None /\ \A c \in bound[k] + 1..MaxCost : c > best']_vars
(* more samples never hurt *)
Monotone == [][Sample /\ best # None => best' # None /\ best' <= best]_vars
=============================================================================
