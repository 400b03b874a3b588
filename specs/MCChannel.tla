----------------------------- MODULE MCChannel -----------------------------
EXTENDS Channel, Json
CONSTANTS Sizes, NItems, NNexts, NCloses, MaxT, Gens, Depth
VARIABLES hist, asked
Both == BOOLEAN
GenEvents ==
    (IF y = "run" THEN {[e |-> "gwait"]} \cup (IF prod < NItems THEN {[e |-> "gyield", i |-> prod + 1]} ELSE {}) \cup
        {[e |-> "gfin", k |-> k, t |-> TRUE] : k \in {"end", "raise"}} ELSE {}) \cup
    (IF y = "gate" THEN {[e |-> "ggo"]} ELSE {})
EnvEvents ==
    (IF ~started THEN {[e |-> "iter"]} ELSE
        (IF asked < NNexts THEN {[e |-> "next", c |-> asked + 1]} ELSE {})) \cup
    (IF Cardinality(cw) < NCloses THEN {[e |-> "close", w |-> Cardinality(cw) + 1]} ELSE {}) \cup
    (IF started THEN {[e |-> "drop"]} ELSE {}) \cup
    (IF now < MaxT THEN {[e |-> "adv", t |-> now + 2000]} ELSE {})
SysEvents ==
    (IF started /\ y = "no" THEN {[e |-> "gstart", t |-> TRUE]} ELSE {}) \cup
    (IF y = "yield" THEN {[e |-> "gres", i |-> prod], [e |-> "gfin", k |-> "closed", t |-> TRUE]} ELSE {}) \cup
    {[e |-> "got", c |-> c, i |-> deliv + 1] : c \in nexts} \cup
    {[e |-> "stopped", c |-> c] : c \in nexts} \cup
    {[e |-> "raised", c |-> c, ok |-> TRUE] : c \in nexts} \cup
    {[e |-> "closedone", w |-> w] : w \in cw}
\* a buffer of m items: what the implementation is supposed to do
Sys(ev) == Step(ev) /\ (ev.e = "gres" => (cfg.m > 0 => Ahead <= cfg.m))
MCInit == \E m \in Sizes, g \in Gens : InitWith([m |-> m, gen |-> g, stat |-> FALSE]) /\ hist = <<>> /\ asked = 0
SysNext == (\E ev \in SysEvents : Sys(ev)) /\ UNCHANGED <<hist, asked>>
Env(ev) == Step(ev) /\ (ev.e = "adv" => last = now) /\ asked' = IF ev.e = "next" THEN asked + 1 ELSE asked
MCNext == \/ \E ev \in EnvEvents : Env(ev) /\ UNCHANGED hist
          \/ (\E ev \in GenEvents : Step(ev)) /\ UNCHANGED <<hist, asked>>
          \/ SysNext
          \/ Idle(0, 0) /\ UNCHANGED <<hist, asked>>
MCSpec == MCInit /\ [][MCNext]_<<vars, hist, asked>>
Obligations == IdleOK \/ ENABLED SysNext \/ y = "run"
GenNext == \/ \E ev \in EnvEvents : Env(ev) /\ hist' = Append(hist, ev)
           \/ \E ev \in GenEvents : Step(ev) /\ hist' = Append(hist, ev) /\ UNCHANGED asked
           \/ SysNext
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
