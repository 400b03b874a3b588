----------------------------- MODULE MCContext -----------------------------
EXTENDS Context, Json
CONSTANTS Keys, NSets, NReaders, Depth
VARIABLES hist
NR == Cardinality(DOMAIN readers) + 1
EnvEvents ==
    {[e |-> "set", k |-> k, v |-> cnt.set + 1] : k \in IF cnt.set < NSets THEN Keys ELSE {}} \cup
    {[e |-> "get", r |-> NR, k |-> k] : k \in IF NR <= NReaders THEN Keys ELSE {}} \cup
    {[e |-> "cancel", r |-> r] : r \in {r \in DOMAIN readers : readers[r].st = "wait" /\ ~readers[r].cxl}}
SysEvents ==
    {[e |-> "ret", r |-> r, s |-> "ok", v |-> v] : r \in {r \in DOMAIN readers : readers[r].st = "wait"}, v \in 1..cnt.set} \cup
    {[e |-> "ret", r |-> r, s |-> "cancelled", v |-> 0] : r \in {r \in DOMAIN readers : readers[r].st = "wait"}}
MCInit == InitWith([x |-> 0]) /\ hist = <<>>
SysNext == \E ev \in SysEvents : Step(ev)
EnvNext == \E ev \in EnvEvents : Step(ev)
IdleNext == Idle(cnt)
MCNext == (EnvNext \/ SysNext \/ IdleNext) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Obligations == IdleOK \/ ENABLED SysNext
\* a reader that waits gets the first value, and a reader of a settled key the last one
Settled == \A r \in DOMAIN readers : readers[r].lo = readers[r].hi \/ readers[r].hi > 1
GenNext == \/ \E ev \in EnvEvents : Step(ev) /\ hist' = Append(hist, ev)
           \/ SysNext /\ UNCHANGED hist
           \/ IdleNext /\ hist' = Append(hist, [e |-> "settle"])
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
