SPECIFICATION Spec
CONSTANTS MaxOps = 4
 MaxDraw = 2
 Emit = TRUE
PROPERTIES SaveUndisturbed LastThree RestoreKeepsFiles
