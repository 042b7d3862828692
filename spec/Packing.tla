------------------------------ MODULE Packing ------------------------------
(* A bin packing problem: open layouts (records [id, bin, items], items being *)
(* pairs <<handle, placement>>), the quantities still missing per item type,  *)
(* the stock left per bin type; solutions are immutable copies of all that.   *)
EXTENDS Integers, Sequences, FiniteSets
(* demand and supply are sequences; It[c] is the item type of placement c *)
Start(dem, sup) == [ls |-> {}, miss |-> dem, stock |-> sup]
Ids(p) == {x.id : x \in p.ls}
Lay(p, id) == CHOOSE x \in p.ls : x.id = id
OnL(x) == {y[2] : y \in x.items}
Swap(p, x, y) == (p.ls \ {x}) \cup {y}

CanOpen(p, b, id) == p.stock[b] > 0 /\ id \notin Ids(p)
Opened(p, b, id, k, c, it) ==
  [ls |-> p.ls \cup {[id |-> id, bin |-> b, items |-> {<<k, c>>}]},
   miss |-> [p.miss EXCEPT ![it] = @ - 1], stock |-> [p.stock EXCEPT ![b] = @ - 1]]
CanPlace(p, id, k, c) == id \in Ids(p) /\ c \notin OnL(Lay(p, id)) /\ \A y \in Lay(p, id).items : y[1] # k
Placed(p, id, k, c, it) == LET x == Lay(p, id) IN
  [p EXCEPT !.ls = Swap(p, x, [x EXCEPT !.items = @ \cup {<<k, c>>}]), !.miss[it] = @ - 1]
(* removing the last item of a layout closes it *)
CanRemove(p, id, k, c) == id \in Ids(p) /\ <<k, c>> \in Lay(p, id).items
Removed(p, id, k, c, it) == LET x == Lay(p, id) IN
  IF x.items = {<<k, c>>} THEN [ls |-> p.ls \ {x}, miss |-> [p.miss EXCEPT ![it] = @ + 1], stock |-> [p.stock EXCEPT ![x.bin] = @ + 1]]
  ELSE [p EXCEPT !.ls = Swap(p, x, [x EXCEPT !.items = @ \ {<<k, c>>}]), !.miss[it] = @ + 1]
(* n(i): how many items of type i the layout holds *)
Closed(p, id, n(_)) == LET x == Lay(p, id) IN
  [ls |-> p.ls \ {x}, miss |-> [i \in 1..Len(p.miss) |-> p.miss[i] + n(i)], stock |-> [p.stock EXCEPT ![x.bin] = @ + 1]]
Joined(p, x, n(_)) ==
  [ls |-> p.ls \cup {x}, miss |-> [i \in 1..Len(p.miss) |-> p.miss[i] - n(i)], stock |-> [p.stock EXCEPT ![x.bin] = @ - 1]]

(* conservation, for the whole state *)
CountIn(p, it, It(_)) == Cardinality({<<x, y>> \in {<<z, w>> \in p.ls \X UNION {q.items : q \in p.ls} : w \in z.items} : It(y[2]) = it})
CountBin(p, b) == Cardinality({x \in p.ls : x.bin = b})
Conserved(p, dem, sup, It(_)) ==
  /\ \A i \in 1..Len(dem) : CountIn(p, i, It) + p.miss[i] = dem[i]
  /\ \A b \in 1..Len(sup) : CountBin(p, b) + p.stock[b] = sup[b]
=============================================================================
