SPECIFICATION Spec
CONSTANTS MaxCls = 4
 Emit = TRUE
INVARIANT ReportOk
PROPERTY Stable
