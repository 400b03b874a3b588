------------------------------ MODULE MCSettle ------------------------------
EXTENDS Settle, Json
CONSTANTS Rexcs, NJobs, MaxAw, MaxT, Kinds, JobTypes, Depth
VARIABLES hist
Both == BOOLEAN
KindsAll == {"coro", "task", "future"}
KindsFew == {"coro", "future"}
AllTypes == {"select", "group", "shield"}
SelType == {"select"}
SelGroup == {"select", "group"}
GroupShield == {"group", "shield"}
KS == UNION {[1..n -> Kinds] : n \in 1..MaxAw}
GKS == UNION {[1..n -> Kinds \ {"coro"}] : n \in 1..MaxAw}
NewId == Cardinality(DOMAIN jobs) + 1
FinKinds(j, i) == IF j.aw[i].kind = "future"
                  THEN (IF j.t = "ct" /\ j.trig THEN {} ELSE {"ok", "raise"})
                  ELSE {"ok", "raise"} \cup (IF j.aw[i].creq > 0 THEN {"cancelled"} ELSE {})
EnvEvents ==
    (IF NewId > NJobs THEN {} ELSE
       (IF "select" \in JobTypes THEN
          {[e |-> "select", s |-> NewId, kinds |-> k, rexc |-> r, cancel |-> c, wait |-> w, tmo |-> t] :
             k \in KS, r \in Rexcs, c \in BOOLEAN, w \in BOOLEAN, t \in {0, 1}} ELSE {}) \cup
       (IF "group" \in JobTypes THEN {[e |-> "group", s |-> NewId, kinds |-> k] : k \in GKS} ELSE {}) \cup
       (IF "shield" \in JobTypes THEN {[e |-> "shield", s |-> NewId]} ELSE {})) \cup
    {[e |-> "ct", s |-> s] : s \in {s \in DOMAIN jobs : jobs[s].st = "idle"}} \cup
    {[e |-> "cancel", s |-> s] : s \in {s \in DOMAIN jobs : jobs[s].st = "run" /\ jobs[s].t # "ct" /\ jobs[s].cxl < 2}} \cup
    UNION {UNION {{[e |-> "fin", s |-> s, i |-> i, k |-> k] : k \in FinKinds(jobs[s], i)}
                  : i \in {i \in DOMAIN jobs[s].aw : jobs[s].aw[i].st = "run" \/ (jobs[s].aw[i].kind = "future" /\ jobs[s].aw[i].st # "done")}}
           : s \in DOMAIN jobs} \cup
    (IF now < MaxT /\ \A s \in DOMAIN jobs : jobs[s].dl > 0 /\ jobs[s].st = "run" /\ ~jobs[s].trig => now < jobs[s].dl
     THEN {[e |-> "adv", t |-> now + 1]} ELSE {})
SysEvents ==
    UNION {{[e |-> "begin", s |-> s, i |-> i] : i \in {i \in DOMAIN jobs[s].aw : jobs[s].aw[i].kind # "future"}} \cup
           {[e |-> "creq", s |-> s, i |-> i] : i \in {i \in DOMAIN jobs[s].aw : jobs[s].aw[i].kind # "future"}} \cup
           {[e |-> "fin", s |-> s, i |-> i, k |-> "cancelled"] :
               i \in {i \in DOMAIN jobs[s].aw : jobs[s].aw[i].kind = "future" /\ Trig(jobs[s])}} \cup
           {[e |-> "ret", s |-> s, k |-> k, w |-> i, same |-> TRUE] : i \in DOMAIN jobs[s].aw \cup {0}, k \in {"ok", "exc", "raise", "none", "cancelled"}}
           : s \in DOMAIN jobs}
MCInit == InitWith([x |-> 0]) /\ hist = <<>>
SysNext == \E ev \in SysEvents : Step(ev)
MCNext == ((\E ev \in EnvEvents : Step(ev)) \/ SysNext \/ Idle) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Obligations == IdleOK \/ ENABLED SysNext
GenNext == \/ \E ev \in EnvEvents : Step(ev) /\ hist' = Append(hist, ev)
           \/ SysNext /\ UNCHANGED hist
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
