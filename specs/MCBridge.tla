------------------------------ MODULE MCBridge ------------------------------
EXTENDS Bridge, Json
CONSTANTS NJobs, NWaits, Modes, Depth
VARIABLES hist
Active(w) == waits[w].st # "over"
\* a thread which waits does nothing else
FreeJobs == {j \in JIds : jobs[j].st = "running" /\ ~\E w \in WIds : waits[w].j = j /\ Active(w)}
EnvEvents ==
    (IF Cardinality(JIds) < NJobs THEN {[e |-> "call", j |-> Cardinality(JIds) + 1, m |-> m, v |-> Cardinality(JIds) + 1] : m \in Modes} ELSE {}) \cup
    {[e |-> "cancel", j |-> j] : j \in {j \in JIds : jobs[j].out = "" /\ ~jobs[j].canc}} \cup
    {[e |-> "jend", j |-> j, k |-> k] : j \in FreeJobs, k \in {"ok", "exc", "stop", "cancelled"}} \cup
    (IF Cardinality(WIds) < NWaits THEN {[e |-> "wait", w |-> Cardinality(WIds) + 1, j |-> j] : j \in FreeJobs} ELSE {}) \cup
    {[e |-> "cend", w |-> w, k |-> k] : w \in {w \in WIds : waits[w].st = "running"}, k \in {"ok", "exc", "cancelled"}} \cup
    (IF \E w \in WIds : Active(w) /\ ~waits[w].canc THEN {[e |-> "cancelall"]} ELSE {})
SysEvents ==
    {[e |-> "jstart", j |-> j, t |-> TRUE, v |-> jobs[j].v, a |-> TRUE,
      s |-> IF jobs[j].m = "new" THEN <<1, 1, 0, 0, 0>> ELSE <<>>] : j \in {j \in JIds : jobs[j].st = "called"}} \cup
    {[e |-> "res", j |-> j, k |-> k, t |-> TRUE] : j \in JIds, k \in {"ok", "exc", "stop", "cancelled"}} \cup
    {[e |-> "cstart", w |-> w, t |-> TRUE] : w \in {w \in WIds : waits[w].st = "asked"}} \cup
    {[e |-> "wret", w |-> w, k |-> k, s |-> TRUE] : w \in WIds, k \in {"ok", "exc", "cancelled"}}
MCInit == InitWith([x |-> 0]) /\ hist = <<>>
SysNext == \E ev \in SysEvents : Step(ev)
MCNext == ((\E ev \in EnvEvents : Step(ev)) \/ SysNext \/ Idle) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Obligations == IdleOK \/ ENABLED SysNext
GenNext == \/ \E ev \in EnvEvents : Step(ev) /\ hist' = Append(hist, ev)
           \/ SysNext /\ UNCHANGED hist
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
