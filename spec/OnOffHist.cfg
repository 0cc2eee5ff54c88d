SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
          Ops = {"all", "n", "mp", "ml", "mpv", "mlv"}
          MaxLen = 4
          Alias = FALSE
          Emit = FALSE
INVARIANTS Answers Cached EmitC
