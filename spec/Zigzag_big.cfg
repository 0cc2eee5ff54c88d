SPECIFICATION Spec
CONSTANTS MaxDim = 4
 MaxSteps = 4
INVARIANTS NoRepeat AllAtStop NeverLate
PROPERTIES UnitStep
