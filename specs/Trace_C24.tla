----------------------------- MODULE Trace_C24 -----------------------------
EXTENDS C24, Json
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Init == l = 1 /\ files = <<>> /\ todo = {} /\ done = <<>> /\ end = ""
Next == /\ l <= Len(Trace)
        /\ LET b == Bad(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(ToJson([reject |-> l, clauses |-> b]))
        /\ l' = l + 1 /\ UNCHANGED <<files, todo, done, end>>
Post == PrintT(ToJson([validated |-> TLCGet("distinct") - 1]))
============================================================================
