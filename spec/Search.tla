------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* The search for a placement, as the optimizer is meant to do it.         *)
(*                                                                         *)
(* One layout: placements are drawn from the cells of a grid.  A cell has  *)
(* a lower bound on the cost of what it can produce.  The best feasible    *)
(* placement drawn so far is kept, and cells that cannot beat it are       *)
(* dropped.                                                                *)
(* All layouts: they are searched one after the other, open ones first,    *)
(* and the search stops at the first that yields a placement.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == -1
(* cost of a placement with right edge x and top edge y *)
CostOf(x, y) == 10 * x + y
(* the best known cost after drawing a placement of cost c *)
Keep(best, c, feasible) == IF feasible /\ (best = None \/ c < best) THEN c ELSE best
(* cells that may still matter *)
Tightened(cells, bound, best) == IF best = None THEN cells ELSE {k \in cells : bound[k] < best}
(* the layout an item goes to: the first of the sequence of outcomes that is not None *)
First(seq) == IF \E i \in 1..Len(seq) : seq[i] # None
              THEN CHOOSE i \in 1..Len(seq) : seq[i] # None /\ \A j \in 1..i - 1 : seq[j] = None ELSE 0
=============================================================================
