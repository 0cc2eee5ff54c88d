SPECIFICATION Spec
CONSTANTS Vs = {0, 1}
 Hi = 1
 MaxOps = 4
 Restore = TRUE
 Fresh = TRUE
INVARIANT Exact
PROPERTY Kept
