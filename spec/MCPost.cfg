SPECIFICATION Spec
INVARIANTS OthersKept SizesKept OnlySigns Settled Ordered Mirrored Moved Symmetric Somewhere Signs
