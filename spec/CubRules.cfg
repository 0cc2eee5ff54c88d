SPECIFICATION Spec
CONSTANTS
 Emit = FALSE
 P = 4079
 Coords = {0, 1, 3}
 Scales = {1, 2}
 Rules = {"c2_1_4", "c2_3_4", "c2_7_12", "g_3_4a", "g_3_4b", "g_5_9", "g_7_12", "g_9_19"}
INVARIANTS ExactInv NotBetter Count
CHECK_DEADLOCK FALSE
