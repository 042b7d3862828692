------------------------------- MODULE LayObs -------------------------------
(* What may be observed of a layout (its dump d) at any moment: shared by   *)
(* LayoutTrace, PackTrace and StripTrace.                                   *)
EXTENDS HistGeo

Items(d) == ToSet(d.items)                 \* pairs <<handle, candidate>>
Cands(d) == {x[2] : x \in Items(d)}
Handles(d) == {x[1] : x \in Items(d)}
(* handles are unique and every item is a known placement *)
WellFormed(w, d) == /\ Cardinality(Items(d)) = Len(d.items)
                    /\ Cardinality(Handles(d)) = Len(d.items)
                    /\ Cands(d) \subseteq 1..Len(w.cands)
(* every placed item has the shape of its candidate (bounding boxes, up to rounding) *)
ShapesOK(w, d) == /\ Len(d.bx) = Len(d.items)
                  /\ \A i \in 1..Len(d.items) :
                       LET c == d.items[i][2] b == PolyBox(w.cands[c].p)
                       IN \A x \in 1..4 : Abs(d.bx[i][x] - b[x]) <= w.k + 1
(* the engine mirrors the items: hazards, probes, grid *)
EngineOK(w, st, ct, b, on, en) ==
  /\ en.ok = 1
  /\ NoDup(en.dyn) /\ ToSet(en.dyn) = on
  /\ en.stat = Len(w.bins[b])
  /\ \A n \in 1..Len(en.col) : ColOK(st, ct, b, on, n, en.col[n])
  /\ \A n \in 1..Len(en.pc) : YesNoOK(st, ct, b, on, n, en.pc[n])
  /\ en.rd = 1 => \A c \in 1..Len(en.grid) : CellOK(w, b, on, en.grid[c])
(* every item hazard can be traced back to its item *)
NamesOK(d) == Len(d.hk) = Len(d.items) /\ ToSet(d.hk) = Items(d)
MirrorOK(w, st, ct, d) ==
  /\ WellFormed(w, d) /\ ShapesOK(w, d)
  /\ ("en" \in DOMAIN d) => EngineOK(w, st, ct, d.bin, Cands(d), d.en) /\ NamesOK(d)

(* areas (doubled), from the shapes as given *)
ItemA2(w, it) == Abs(Area2(w.ia[it + 1]))
RECURSIVE SumFn(_, _)
SumFn(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumFn(f, S \ {x})
SumOver(S, F(_)) == SumFn([x \in S |-> F(x)], S)
BinA2(w, b) == Abs(Area2(w.ba[b][1])) - SumTo([j \in 1..Len(w.ba[b]) - 1 |-> Abs(Area2(w.ba[b][j + 1]))], Len(w.ba[b]) - 1)
CandsA2(w, on) == SumOver(on, LAMBDA c : ItemA2(w, w.cands[c].it))
(* a ratio logged in 1/10000 *)
RatioOK(r, num, den) == Abs(r * den - 10000 * num) <= 2 * den
UsageOK(w, d) == RatioOK(d.us, CandsA2(w, Cands(d)), BinA2(w, d.bin))
=============================================================================
