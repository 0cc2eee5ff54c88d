SPECIFICATION Spec
CONSTANTS Paths = {"p", "q"}
 Objs = {1, 2}
 Names = {"a", "b"}
 MaxOps = 6
 Emit = FALSE
INVARIANT LazyIsExact
PROPERTIES OnlySavesWrite SaveKeepsStores OthersKept RoundTrip
