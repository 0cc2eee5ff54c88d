SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
          Ops = {"all", "n", "mp", "ml", "mpv", "mlv"}
          MaxLen = 3
          Alias = FALSE
          Emit = TRUE
INVARIANTS Answers Cached EmitC
