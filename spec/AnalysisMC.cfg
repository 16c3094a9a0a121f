SPECIFICATION Spec
INVARIANTS OneDiagnosis SuccessIsReached StuckIsNot LittleIsLittle CloseIsClose Rises AllWords Slower
CHECK_DEADLOCK FALSE
CONSTANTS One = 20 Slack = 0 Iter = 9
