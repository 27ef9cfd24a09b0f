SPECIFICATION Spec
CONSTANTS CheckSpans = FALSE
          TraceFile = "trace.ndjson"
INVARIANT Report
CHECK_DEADLOCK FALSE
