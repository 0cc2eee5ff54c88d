SPECIFICATION Spec
CONSTANTS N1 = 3
 N2 = 2
 NV = 3
 MaxSense = TRUE
 Tables <- TabsQ
INVARIANTS OwnPoint Complete
PROPERTIES Once Terminates
