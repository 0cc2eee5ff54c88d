SPECIFICATION Spec
CONSTANTS MaxLines = 2
          MaxWords = 2
          MaxTypes = 2
          Emit = TRUE
INVARIANTS Rect Faithful NoPartial EmitC
