SPECIFICATION Spec
INVARIANT Sane
PROPERTIES OthersKept SavingKeeps LoadingKeeps RoundTrip Frozen Missing
