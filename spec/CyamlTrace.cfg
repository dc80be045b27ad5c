SPECIFICATION TraceSpec
CONSTANTS
  Scn <- TraceScn
  RawEvents <- TraceEvents
CHECK_DEADLOCK FALSE
VIEW TraceView
