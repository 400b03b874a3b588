------------------------------ MODULE MCClient ------------------------------
EXTENDS Client, Json
CONSTANTS NAttempts, Modes, Attempts, Timeouts, MaxTime, Depth
VARIABLES hist
EnvEvents ==
    (IF ph = "new" THEN {[e |-> "start"]} ELSE {}) \cup
    (IF ph = "try" THEN {[e |-> "answer", i |-> cur, k |-> x] : x \in {"ok", "refused", "error"}} ELSE {}) \cup
    {[e |-> "drop", i |-> i] : i \in open \ gone} \cup
    (IF ph = "run" THEN {[e |-> "end", i |-> cur, k |-> x] : x \in {"ok", "fail"}} ELSE {}) \cup
    (IF ph = "cxl" THEN {[e |-> "released", i |-> cur]} ELSE {}) \cup
    (IF st = "up" /\ ph # "new" THEN {[e |-> "stop"]} ELSE {}) \cup
    (IF now < MaxTime /\ IdleOK(ph = "run") THEN {[e |-> "adv", t |-> now + 1]} ELSE {})
SysEvents ==
    (IF cur < NAttempts THEN {[e |-> "attempt", i |-> cur + 1]} ELSE {}) \cup
    {[e |-> x, i |-> cur] : x \in {"aborted", "call", "cancel", "fin"}} \cup {[e |-> "closed", i |-> i] : i \in open} \cup
    (IF ~ready THEN {[e |-> "ready"]} ELSE {}) \cup {[e |-> "stopped"]} \cup
    (IF ~ret /\ ph # "new" /\ (st # "up" \/ ph = "over") THEN {[e |-> "started", r |-> IF st = "up" THEN res ELSE "cancelled"]} ELSE {})
MCInit == /\ \E m \in Modes, n \in Attempts, a \in Timeouts, b \in Timeouts : InitWith([robust |-> m, n |-> n, rt |-> a, rc |-> b])
          /\ hist = <<>>
SysNext == \E ev \in SysEvents : Step(ev)
EnvNext == \E ev \in EnvEvents : Step(ev)
MCNext == (EnvNext \/ SysNext \/ Idle(ph = "run")) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
\* nothing the system has to do is forbidden to it
Obligations == IdleOK(ph = "run") \/ cur = NAttempts \/ ENABLED SysNext
Bound == cur <= NAttempts
GenNext == (\E ev \in EnvEvents : Step(ev) /\ hist' = Append(hist, ev)) \/ (SysNext /\ UNCHANGED hist)
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
