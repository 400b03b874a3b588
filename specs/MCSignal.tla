------------------------------ MODULE MCSignal ------------------------------
EXTENDS Signal, Json
CONSTANTS NSig, NRecv, NCalls, Depth
VARIABLES hist
EnvEvents ==
    UNION {{[e |-> "connect", s |-> s, r |-> r, how |-> h] : r \in 1..NRecv, h \in {"fn", "bad"}} \cup
           {[e |-> "disconnect", s |-> s, r |-> r] : r \in 1..NRecv} \cup
           {[e |-> "freeze", s |-> s]} : s \in DOMAIN sig} \cup
    {[e |-> "copy", s |-> s, n |-> Cardinality(DOMAIN sig) + 1] : s \in IF Cardinality(DOMAIN sig) < NSig THEN DOMAIN sig ELSE {}} \cup
    {[e |-> "call", c |-> Cardinality(DOMAIN calls) + 1, s |-> s] : s \in IF Cardinality(DOMAIN calls) < NCalls THEN DOMAIN sig ELSE {}} \cup
    UNION {{[e |-> "end", c |-> c, r |-> calls[c].cur, k |-> k] : k \in {"ok", "raise"}} : c \in {c \in DOMAIN calls : calls[c].cur # 0 /\ ~calls[c].cxl}} \cup
    {[e |-> "end", c |-> c, r |-> calls[c].cur, k |-> "cancelled"] : c \in {c \in DOMAIN calls : calls[c].cur # 0 /\ calls[c].cxl}} \cup
    {[e |-> "cancel", c |-> c] : c \in {c \in DOMAIN calls : calls[c].st = "run" /\ ~calls[c].cxl}}
SysEvents ==
    {[e |-> "recv", c |-> c, r |-> r, same |-> TRUE] : c \in DOMAIN calls, r \in 1..NRecv} \cup
    UNION {{[e |-> "ret", c |-> c, k |-> calls[c].k, r |-> calls[c].r], [e |-> "ret", c |-> c, k |-> "cancelled", r |-> 0]} : c \in DOMAIN calls}
MCInit == InitWith([x |-> 0]) /\ hist = <<>>
SysNext == \E ev \in SysEvents : Step(ev)
MCNext == ((\E ev \in EnvEvents : Step(ev)) \/ SysNext) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Obligations == IdleOK \/ ENABLED SysNext \/ \E c \in DOMAIN calls : calls[c].cxl /\ calls[c].cur # 0
GenNext == \/ \E ev \in EnvEvents : Step(ev) /\ hist' = Append(hist, ev)
           \/ SysNext /\ UNCHANGED hist
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
