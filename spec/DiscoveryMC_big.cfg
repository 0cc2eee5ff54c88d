SPECIFICATION Spec
CONSTANTS MaxCls = 5
 Emit = FALSE
INVARIANT ReportOk
PROPERTY Stable
