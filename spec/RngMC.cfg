SPECIFICATION Spec
CONSTANTS MaxOps = 5
 MaxDraw = 2
 Emit = FALSE
PROPERTIES SaveUndisturbed LastThree RestoreKeepsFiles
