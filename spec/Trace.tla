------------------------------- MODULE Trace -------------------------------
(* Is the recorded history of library calls a behaviour of Lib?              *)
EXTENDS Lib, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l           \* position in T
vars == <<l, store>>

Init == l = 1 /\ store = <<>>

Step == /\ l <= Len(T)
        /\ l' = l + 1
        /\ LET e == T[l] IN
             \/ e.f \notin {"ses", "xse"} /\ PureCall(e)
             \/ e.f = "ses" /\ SesCall(e, store, store')
             \/ e.f = "xse" /\ XCall(e, store, store')
             \/ /\ KnownFinding(e) # "none"
                /\ PrintT(<<"KNOWN", KnownFinding(e), l>>)
                /\ UNCHANGED store
Spec == Init /\ [][Step]_vars

Accepted == LET k == TLCGet("stats").diameter IN
    IF k = Len(T) + 1 THEN TRUE
    ELSE PrintT(<<"REJECT", k>>) /\ FALSE
=============================================================================
