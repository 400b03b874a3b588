------------------------------ MODULE MCServer ------------------------------
EXTENDS Server, Json
CONSTANTS NClients, NData, Modes, NStops, Depth
VARIABLES hist
Next1 == Cardinality(DOMAIN conns) + 1
Nothing == [e |-> "none"]
EnvEvents ==
    (IF Next1 <= NClients /\ st # "down" THEN
        {IF Stream THEN [e |-> "come", c |-> Next1] ELSE [e |-> "dgram", c |-> Next1, x |-> Next1]} ELSE {}) \cup
    (IF Stream THEN
        {[e |-> "data", c |-> c, x |-> Len(conns[c].buf) + 1] :
            c \in {c \in DOMAIN conns : conns[c].open /\ ~conns[c].hup /\ Len(conns[c].buf) + Len(conns[c].out) < NData}} \cup
        {[e |-> "hup", c |-> c] : c \in {c \in DOMAIN conns : conns[c].open /\ ~conns[c].hup}} ELSE {}) \cup
    {[e |-> "end", c |-> c, k |-> k] : c \in {c \in DOMAIN conns : conns[c].h = "run"}, k \in {"ok", "fail"}} \cup
    {[e |-> "released", c |-> c] : c \in {c \in DOMAIN conns : conns[c].h = "cxl"}} \cup
    (LET n == Cardinality(DOMAIN stops) + 1 IN IF n <= NStops THEN {[e |-> "stop", s |-> n]} ELSE {})
SysEvents ==
    UNION {{[e |-> "call", c |-> c, x |-> conns[c].x], [e |-> "cancel", c |-> c],
            [e |-> "fin", c |-> c], [e |-> "closed", c |-> c]} : c \in DOMAIN conns} \cup
    {[e |-> "got", c |-> c, x |-> Head(conns[c].buf)] : c \in {d \in DOMAIN conns : conns[d].buf # <<>> /\ Busy(d)}} \cup
    {[e |-> "sent", c |-> c, x |-> Head(conns[c].out)] : c \in {d \in DOMAIN conns : conns[d].out # <<>> /\ conns[d].open}} \cup
    {[e |-> "stopped", s |-> s] : s \in DOMAIN stops}
MCInit == /\ \E m \in Modes : InitWith([m |-> m])
          /\ hist = <<>>
SysNext == \E ev \in SysEvents : Step(ev)
EnvNext == \E ev \in EnvEvents : Step(ev)
MCNext == (EnvNext \/ SysNext \/ Idle) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Obligations == IdleOK \/ ENABLED SysNext
GenNext == (\E ev \in EnvEvents : Step(ev) /\ hist' = Append(hist, ev)) \/ (SysNext /\ UNCHANGED hist)
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
