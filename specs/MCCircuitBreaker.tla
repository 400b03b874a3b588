-------------------------- MODULE MCCircuitBreaker --------------------------
EXTENDS CircuitBreaker, Json
CONSTANTS Calls, MaxTime, Ratios, Depth, Overlap
VARIABLES hist
NextCall == Cardinality(DOMAIN calls) + 1
Running == {c \in DOMAIN calls : calls[c].st = "run"}
Draws == {1, 500000}
EnvEvents ==
    {[e |-> "call", c |-> NextCall, r |-> r] : r \in IF NextCall <= Calls /\ Cardinality(Running) <= Overlap THEN Draws ELSE {}} \cup
    {[e |-> "end", c |-> c, k |-> "ok", n |-> "", id |-> c] : c \in Running} \cup
    {[e |-> "end", c |-> c, k |-> "raise", n |-> n, id |-> c] : c \in Running, n \in {"A", "C"}} \cup
    (IF now < MaxTime THEN {[e |-> "adv", t |-> now + d] : d \in {125, 250}} ELSE {})
SysEvents ==
    {[e |-> "run", c |-> c, same |-> TRUE, st |-> st] : c \in DOMAIN calls} \cup
    {[e |-> "ret", c |-> c, k |-> "broken", n |-> "", id |-> last, st |-> st] : c \in DOMAIN calls} \cup
    {[e |-> "ret", c |-> c, k |-> calls[c].k, n |-> calls[c].n, id |-> calls[c].id, st |-> st] : c \in DOMAIN calls}
MCInit == /\ \E q \in Ratios : InitWith([resp |-> 250, broken |-> 250, passing |-> 125, recovery |-> 500,
                                ratio |-> q, n |-> 2, exc |-> <<"A">>, ignored |-> <<"B">>])
          /\ hist = <<>>
SysNext == \E ev \in SysEvents : Step(ev)
EnvNext == \E ev \in EnvEvents : IdleOK /\ Step(ev)
MCNext == (EnvNext \/ SysNext) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Obligations == IdleOK \/ ENABLED SysNext
GenInit == /\ \E q \in Ratios, p \in {1000, 2000}, b \in {1000, 500}, x \in {<<>>, <<"B">>} :
               InitWith([resp |-> p, broken |-> b, passing |-> 500, recovery |-> 1000,
                                ratio |-> q, n |-> 10, exc |-> <<"A">>, ignored |-> x])
           /\ hist = <<>>
GenEvents ==
    {[e |-> "call", c |-> NextCall, r |-> r] : r \in IF Cardinality(Running) <= Overlap THEN {1, 100000, 300000, 600000} ELSE {}} \cup
    {[e |-> "end", c |-> c, k |-> "ok", n |-> "", id |-> c] : c \in IF RandomElement(1..6) = 1 THEN Running ELSE {}} \cup
    {[e |-> "end", c |-> c, k |-> "raise", n |-> n, id |-> c] : c \in Running, n \in {"A", "A", "B", "C"}} \cup
    {[e |-> "adv", t |-> now + 125]}
GenNext == \/ /\ IdleOK /\ \E ev \in GenEvents : Step(ev) /\ hist' = Append(hist, ev)
           \/ SysNext /\ UNCHANGED hist
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
