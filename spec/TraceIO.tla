------------------------------- MODULE TraceIO -------------------------------
(* Recorded executions: one JSON object per line of the file IOEnv.TRACE.    *)
EXTENDS Json, IOUtils
LoadRecs(path) == ndJsonDeserialize(path)   \* (TLC: java/TraceOverrides.java)
Recs == LoadRecs(IOEnv.TRACE)
=============================================================================
