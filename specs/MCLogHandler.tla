---------------------------- MODULE MCLogHandler ----------------------------
EXTENDS LogHandler, Json
CONSTANTS Sizes, NRecs, NClose, MaxT, Buffered, Depth
VARIABLES hist
Both == BOOLEAN
EnvEvents ==
    (IF Cardinality(RIds) < NRecs THEN {[e |-> "emit", r |-> Cardinality(RIds) + 1]} ELSE {}) \cup
    (IF cur # 0 THEN {[e |-> "tend", r |-> cur]} \cup (IF busy THEN {} ELSE {[e |-> "tbusy", r |-> cur]}) ELSE {}) \cup
    (IF Cardinality(closing) < NClose THEN {[e |-> "close", c |-> Cardinality(closing) + 1]} ELSE {}) \cup
    (IF now < MaxT THEN {[e |-> "adv", t |-> now + LagMs]} ELSE {})
SysEvents ==
    {[e |-> "emitted", r |-> r] : r \in Emitting} \cup
    {[e |-> "deliver", r |-> r, t |-> TRUE] : r \in Waiting} \cup
    {[e |-> "closedone", c |-> c] : c \in closing}
\* the buffer of the implementation
Sys(ev) == Step(ev) /\ (ev.e = "emitted" => (cfg.m > 0 => Cardinality(Accepted) <= cfg.m \/ MayDrop(ev.r)))
MCInit == \E m \in Sizes, b \in Buffered : InitWith([m |-> m, b |-> b]) /\ hist = <<>>
SysNext == \E ev \in SysEvents : Sys(ev)
\* threads which are able to go on do so while time passes
Env(ev) == Step(ev) /\ (ev.e = "adv" => last = now)
MCNext == ((\E ev \in EnvEvents : Env(ev)) \/ SysNext \/ Idle(IF closed THEN 0 ELSE 1, IF closed THEN 0 ELSE 1)) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Obligations == IdleOK \/ ENABLED SysNext \/ cur # 0
GenNext == \/ \E ev \in EnvEvents : Env(ev) /\ hist' = Append(hist, ev)
           \/ SysNext /\ UNCHANGED hist
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
