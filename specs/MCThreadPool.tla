---------------------------- MODULE MCThreadPool ----------------------------
EXTENDS ThreadPool, Json
CONSTANTS Sizes, NJobs, Loops, MaxT, Depth
VARIABLES hist, live
Unit == 10100
Free == {j \in DOMAIN jobs : jobs[j].out = "" /\ jobs[j].canc = 0 /\ jobs[j].in /\ Open(j)}
NewId == Cardinality(DOMAIN jobs) + 1
Calm == \A j \in DOMAIN jobs : jobs[j].in \/ jobs[j].st = "refused"
EnvEvents ==
    (IF ~Calm \/ Blocked THEN {} ELSE
       (IF NewId <= NJobs THEN {[e |-> "submit", j |-> NewId, l |-> l] : l \in Loops \ closedl} ELSE {}) \cup
       {[e |-> "cancel", j |-> j] : j \in Free} \cup
       {[e |-> "lclose", l |-> l] : l \in (Loops \ closedl) \ {1}} \cup
       (IF down.st = "no" THEN {[e |-> "shutdown", w |-> w, loop |-> l] : w \in BOOLEAN, l \in BOOLEAN} ELSE {})) \cup
    {[e |-> "jend", j |-> j, k |-> k] : j \in RunningJobs, k \in {"ok", "exc"}} \cup
    (IF now < MaxT THEN {[e |-> "adv", t |-> now + Unit]} ELSE {})
SysEvents ==
    {[e |-> "accepted", j |-> j] : j \in {j \in DOMAIN jobs : ~jobs[j].in /\ jobs[j].st # "refused"}} \cup
    {[e |-> "refused", j |-> j] : j \in {j \in DOMAIN jobs : ~jobs[j].in /\ jobs[j].st = "queued"}} \cup
    {[e |-> "jbegin", j |-> j, t |-> TRUE] : j \in In("queued")} \cup
    {[e |-> "res", j |-> j, k |-> k, t |-> TRUE] : j \in {j \in DOMAIN jobs : jobs[j].in /\ Open(j)}, k \in {"ok", "exc", "closed", "cancelled"}} \cup
    (IF down.st = "begun" THEN {[e |-> "shutdowned", n |-> n] : n \in {0, 1}} ELSE {})
MCInit == \E m \in Sizes : InitWith([max |-> m, stat |-> FALSE]) /\ hist = <<>> /\ live = 0
Same == UNCHANGED <<hist, live>>
SysNext == \E ev \in SysEvents : Step(ev)
\* time passes when nothing is left to be done
EnvStep(ev) == Step(ev) /\ (ev.e = "adv" => IdleOK)
MCNext == ((\E ev \in EnvEvents : EnvStep(ev)) \/ SysNext \/ (Calm /\ Idle(0, 0))) /\ Same
MCSpec == MCInit /\ [][MCNext]_<<vars, hist, live>>
\* whatever is owed can be done, unless it is time that has to pass
Obligations == IdleOK \/ ENABLED SysNext
GenNext == \/ \E ev \in EnvEvents : Step(ev) /\ hist' = Append(hist, ev) /\ UNCHANGED live
           \/ SysNext /\ Same
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
