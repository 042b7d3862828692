SPECIFICATION Spec
CONSTANTS NLay = 2
 NCells = 3
 MaxCost = 4
 Budget = 3
INVARIANTS BestIsCheapest NeverStuck StopsAtFirst
PROPERTIES DroppedRightly Monotone
CHECK_DEADLOCK FALSE
