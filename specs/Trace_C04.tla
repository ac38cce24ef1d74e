----------------------------- MODULE Trace_C04 -----------------------------
EXTENDS C04, Json
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET b == Bad(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(ToJson([reject |-> l, clauses |-> b]))
        /\ l' = l + 1
Post == PrintT(ToJson([validated |-> TLCGet("distinct") - 1]))
============================================================================
