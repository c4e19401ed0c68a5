SPECIFICATION Spec
INVARIANTS Fixed HistoryFree Gated FixedIrrelevant StartsInside
