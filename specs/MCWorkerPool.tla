---------------------------- MODULE MCWorkerPool ----------------------------
EXTENDS WorkerPool, Json
CONSTANTS NCalls, NWorkers, Kinds, Replies, MaxT, Ps, Depth
VARIABLES hist
Both == BOOLEAN
OnlyT == {TRUE}
NC == Cardinality(CIds)
NW == Cardinality(WIds)
EnvEvents ==
    (IF NC < NCalls THEN {[e |-> "call", c |-> NC + 1, p |-> p] : p \in Ps} ELSE {}) \cup
    {[e |-> "cancel", c |-> c] : c \in {d \in CIds : ~calls[d].canc /\ calls[d].st # "done"}} \cup
    (IF NW < NWorkers /\ ~Ending THEN {[e |-> "conn", k |-> NW + 1, q |-> q] : q \in Kinds} ELSE {}) \cup
    {[e |-> "reply", k |-> k, r |-> r] : k \in {w \in WIds : ws[w].st = "busy"}, r \in Replies} \cup
    {[e |-> "lost", k |-> k] : k \in {w \in WIds : ws[w].st \in {"new", "idle", "busy"}}} \cup
    (IF closing = {} /\ ~closed THEN {[e |-> "close", x |-> 1]} ELSE {}) \cup
    (IF now < MaxT THEN {[e |-> "adv", t |-> now + 2000]} ELSE {})
SysEvents ==
    {[e |-> "authok", k |-> k] : k \in {w \in WIds : ws[w].st = "new"}} \cup
    {[e |-> "req", k |-> k, c |-> c, a |-> TRUE] : k \in {w \in WIds : ws[w].st = "idle"}, c \in {d \in CIds : calls[d].p}} \cup
    {[e |-> "gone", k |-> k] : k \in {w \in WIds : ws[w].st # "gone"}} \cup
    {[e |-> "res", c |-> c, r |-> r] : c \in {d \in CIds : calls[d].st # "done"},
                                      r \in {"ok", "exc", "other", "cancelled", "lost", "closed", "unsent", "badinit"}} \cup
    {[e |-> "sig", k |-> k] : k \in {w \in WIds : ws[w].st = "busy" /\ calls[ws[w].cur].canc}} \cup
    (IF sup = 0 THEN {[e |-> "supsig"]} ELSE {}) \cup
    {[e |-> "closedone", x |-> x] : x \in closing}
MCInit == InitWith([m |-> 0, stat |-> FALSE]) /\ hist = <<>>
SysNext == (\E ev \in SysEvents : Step(ev)) /\ UNCHANGED hist
Env(ev) == Step(ev) /\ (ev.e = "adv" => last = now)
MCNext == \/ \E ev \in EnvEvents : Env(ev) /\ UNCHANGED hist
          \/ SysNext
          \/ IdleOK /\ UNCHANGED <<vars, hist>>
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Obligations == IdleOK \/ ENABLED SysNext
GenNext == \/ \E ev \in EnvEvents : Env(ev) /\ hist' = Append(hist, ev)
           \/ SysNext
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
