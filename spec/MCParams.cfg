SPECIFICATION Spec
INVARIANTS ReadBack Fixed FreeingKeeps Evaluated BestStays SplitCovers FullVector
