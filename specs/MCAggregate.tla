---------------------------- MODULE MCAggregate ----------------------------
EXTENDS Aggregate, Json
CONSTANTS MaxCalls, MaxExec, MaxTime, Maxes, Leeways, Modes, Depth
VARIABLES hist

NextC == Cardinality(DOMAIN call) + 1
NextX == Cardinality(DOMAIN exec) + 1
Running == {x \in DOMAIN exec : exec[x].st = "run"}
EnvEvents ==
    (IF NextC <= MaxCalls THEN {[e |-> "call", c |-> NextC]} ELSE {}) \cup
    {[e |-> "cancel", c |-> c] : c \in {c \in DOMAIN call : Live(c)}} \cup
    UNION {{[e |-> "set", x |-> x, c |-> c, k |-> k] :
              c \in {c \in Range(exec[x].args) : cfg.mode = "async" /\ call[c].k = "none"}, k \in {"ok", "exc"}} : x \in Running} \cup
    UNION {{[e |-> "finish", x |-> x, k |-> "ok", n |-> n] :
              n \in IF cfg.mode = "async" THEN {0} ELSE {0, Len(exec[x].args)}} : x \in Running} \cup
    {[e |-> "finish", x |-> x, k |-> "exc", n |-> 0] : x \in Running} \cup
    (IF now < MaxTime THEN {[e |-> "adv", t |-> now + 1]} ELSE {})
LiveSeq(b) == batch[b].calls
SysEvents ==
    (IF NextX <= MaxExec
     THEN UNION {{[e |-> "start", x |-> NextX, args |-> LiveSeq(b), ex |-> ex] : ex \in Wanting(b)} : b \in DOMAIN batch}
     ELSE {}) \cup
    {[e |-> "fcancel", x |-> x] : x \in Running} \cup
    {[e |-> "ret", c |-> c, k |-> call[c].k, v |-> call[c].v] :
        c \in {c \in DOMAIN call : ~call[c].ret /\ call[c].k # "none"}} \cup
    {[e |-> "ret", c |-> c, k |-> "cancelled", v |-> 0] : c \in {c \in DOMAIN call : ~call[c].ret}}

MCInit == /\ \E m \in Maxes, w \in Leeways, md \in Modes : InitWith([max |-> m, leeway |-> w, mode |-> md, stat |-> FALSE])
          /\ hist = <<>>
SysNext == \E ev \in SysEvents : Step(ev)
\* time passes only at quiescent points
EnvNext == \E ev \in EnvEvents : (ev.e = "adv" => IdleOK) /\ Step(ev)
MCNext == (EnvNext \/ SysNext) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Obligations == IdleOK \/ NextX > MaxExec \/ ENABLED SysNext

GenNext == \/ \E ev \in EnvEvents : (ev.e = "adv" => IdleOK) /\ Step(ev) /\ hist' = Append(hist, ev)
           \/ SysNext /\ UNCHANGED hist
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson(hist)) ELSE TRUE
=============================================================================
