------------------------------- MODULE MCPool -------------------------------
(* Bounded instances of Pool: exhaustive checking and behaviour generation. *)
EXTENDS Pool, Json
CONSTANTS Clients, MaxInst, MaxFail, MaxTime, Sizes, Recycles, Depth, MaxOps
VARIABLES hist, ops

Ids == 1..MaxInst
NextId == Cardinality(DOMAIN inst) + 1
EnvEvents ==
    {[e |-> "acq", c |-> c] : c \in Clients} \cup
    {[e |-> "cancel", c |-> c] : c \in {c \in Waiting : ~acq[c].cxl}} \cup
    {[e |-> "rel", c |-> c] : c \in Clients} \cup
    {[e |-> "createEnd", k |-> k, i |-> NextId, ok |-> ok] :
        k \in creating, ok \in (IF NextId <= MaxInst THEN {TRUE} ELSE {}) \cup (IF fails < MaxFail THEN {FALSE} ELSE {})} \cup
    {[e |-> "checkEnd", i |-> i, r |-> r] : i \in InSt("checking"), r \in {"ok", "bad"}} \cup
    {[e |-> "destroyEnd", i |-> i] : i \in InSt("destroying")} \cup
    {[e |-> "close", by |-> -1]} \cup
    (IF now < MaxTime THEN {[e |-> "adv", t |-> now + 1]} ELSE {})
NewK == CHOOSE k \in 1..(Cardinality(creating) + 1) : k \notin creating
SysEvents ==
    {[e |-> "createStart", k |-> NewK]} \cup
    {[e |-> "createCancelled", k |-> k] : k \in creating} \cup
    {[e |-> "checkStart", i |-> i] : i \in DOMAIN inst} \cup
    {[e |-> "checkCancelled", i |-> i] : i \in InSt("checking")} \cup
    {[e |-> "acqOk", c |-> c, i |-> i] : c \in Waiting, i \in DOMAIN inst} \cup
    {[e |-> "acqFail", c |-> c] : c \in Waiting} \cup
    {[e |-> "acqCancelled", c |-> c] : c \in Waiting} \cup
    {[e |-> "destroyStart", i |-> i] : i \in DOMAIN inst} \cup
    {[e |-> "destroyCancelled", i |-> i] : i \in InSt("destroying")} \cup
    (IF closing = "closing" THEN {[e |-> "closeDone", r |-> "ok"]} ELSE {})

MCInit == /\ \E m \in Sizes, r \in Recycles : InitWith([maxsize |-> m, recycle |-> r])
          /\ hist = <<>> /\ ops = 0
EnvNext == /\ \E ev \in EnvEvents : Step(ev)
           /\ ops < MaxOps /\ ops' = ops + 1
SysNext == (\E ev \in SysEvents : Step(ev)) /\ UNCHANGED ops
MCNext == (EnvNext \/ SysNext) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist, ops>>

\* whatever the pool still owes at a quiescent point, it can do something about
Obligations == IdleOK \/ ENABLED SysNext

GenNext == \/ /\ ops < MaxOps /\ ops' = ops + 1
              /\ \E ev \in EnvEvents : Step(ev) /\ hist' = Append(hist, ev)
           \/ SysNext /\ UNCHANGED hist
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson(hist)) ELSE TRUE
=============================================================================
