SPECIFICATION Spec
CONSTANTS MaxOps = 7
 MaxDraw = 2
 Emit = FALSE
PROPERTIES SaveUndisturbed LastThree RestoreKeepsFiles
