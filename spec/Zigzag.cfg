SPECIFICATION Spec
CONSTANTS MaxDim = 3
 MaxSteps = 4
INVARIANTS NoRepeat AllAtStop NeverLate
PROPERTIES UnitStep
