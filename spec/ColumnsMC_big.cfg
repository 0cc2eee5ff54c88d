SPECIFICATION Spec
CONSTANTS MaxLines = 3
          MaxWords = 2
          MaxTypes = 2
          Emit = FALSE
INVARIANTS Rect Faithful NoPartial EmitC
