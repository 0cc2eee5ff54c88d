SPECIFICATION Spec
CONSTANTS Vs = {0, 1, 2}
 Hi = 2
 MaxOps = 6
 Restore = TRUE
 Fresh = TRUE
INVARIANT Exact
PROPERTY Kept
