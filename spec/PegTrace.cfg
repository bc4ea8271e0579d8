SPECIFICATION TraceSpec
CONSTANT View = "full"
INVARIANTS Report PositionsSound AnchorsSound
PROPERTIES RecoveryRestores FatalPropagates NoEscalation
CHECK_DEADLOCK FALSE
