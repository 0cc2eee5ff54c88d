SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
          Ops = {"all", "n", "mp", "ml", "mpv", "mlv"}
          MaxLen = 5
          Alias = FALSE
          Emit = FALSE
INVARIANTS Answers Cached EmitC
