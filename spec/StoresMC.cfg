SPECIFICATION Spec
CONSTANTS Paths = {"p", "q"}
 Objs = {1, 2}
 Names = {"a", "b"}
 MaxOps = 5
 Emit = FALSE
INVARIANT LazyIsExact
PROPERTIES OnlySavesWrite SaveKeepsStores OthersKept RoundTrip
