SPECIFICATION Spec
CONSTANTS NLay = 2
 NCells = 4
 MaxCost = 5
 Budget = 4
INVARIANTS BestIsCheapest NeverStuck StopsAtFirst
PROPERTIES DroppedRightly Monotone
CHECK_DEADLOCK FALSE
