CONSTANTS NMax = 30  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Inside Contains Centred Reconstruct NearNominal EmitCase
