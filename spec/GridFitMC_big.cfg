SPECIFICATION Spec
CONSTANTS N1 = 3
 N2 = 3
 NV = 2
 MaxSense = FALSE
 Tables <- TabsT
INVARIANTS OwnPoint Complete
PROPERTIES Once Terminates
