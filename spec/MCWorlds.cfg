CONSTANT Polite = TRUE
SPECIFICATION Spec
INVARIANT HistoryFree
PROPERTY OthersKept
