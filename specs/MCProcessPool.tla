--------------------------- MODULE MCProcessPool ---------------------------
EXTENDS ProcessPool, Json
CONSTANTS NJobs, Kinds, Depth
VARIABLES hist
Asked == {j \in JIds : jobs[j].st = "asked"}
EnvEvents ==
    (IF Cardinality(JIds) < NJobs /\ Asked = {} THEN {[e |-> "submit", j |-> Cardinality(JIds) + 1, k |-> k] : k \in Kinds} ELSE {}) \cup
    {[e |-> "release", j |-> j] : j \in {j \in JIds : jobs[j].st = "in" /\ ~jobs[j].rel}} \cup
    {[e |-> "cancel", j |-> j] : j \in {j \in JIds : jobs[j].st = "in" /\ jobs[j].out = "" /\ ~jobs[j].canc}} \cup
    (IF pool.closed THEN {} ELSE {[e |-> "shutdown", w |-> w, c |-> c] : w \in {TRUE, FALSE}, c \in {TRUE, FALSE}})
SysEvents ==
    {[e |-> "accepted", j |-> j] : j \in Asked} \cup {[e |-> "refused", j |-> j] : j \in Asked} \cup
    {[e |-> "res", j |-> j, k |-> k] : j \in Sub \ Over, k \in {"ok", "exc", "err", "broken", "cancelled"}} \cup
    (IF pool.asked /\ ~pool.shut THEN {[e |-> "shut"]} ELSE {})
MCInit == InitWith([n |-> 2]) /\ hist = <<>>
SysNext == \E ev \in SysEvents : Step(ev)
MCNext == ((\E ev \in EnvEvents : Step(ev)) \/ SysNext) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
\* every job which was asked for gets an answer, every job which may end an outcome, every shutdown an end
Obligations == /\ Asked # {} => \E ev \in SysEvents : ev.e \in {"accepted", "refused"} /\ ENABLED Step(ev)
               /\ \A j \in Sub \ Over : (Ends(j) \/ jobs[j].canc \/ pool.broken) => Outs(j) # {}
               /\ (pool.asked /\ ~pool.shut /\ \A j \in Sub : Ends(j)) => ENABLED Shut
GenNext == \/ \E ev \in EnvEvents : Step(ev) /\ hist' = Append(hist, ev)
           \/ SysNext /\ UNCHANGED hist
           \/ UNCHANGED <<vars, hist>>
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
