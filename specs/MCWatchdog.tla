----------------------------- MODULE MCWatchdog -----------------------------
EXTENDS Watchdog, Json
CONSTANTS Ns, Socks, Ivs, Envs, MaxTime, Unit, Depth
VARIABLES hist, begun
All == {s \in 1..10 : s <= cfg.n}
EnvEvents ==
    (IF st = "new" THEN {[e |-> "enter"]} ELSE {}) \cup
    {[e |-> "ready", s |-> s, k |-> k] : s \in {s \in begun : s \notin DOMAIN up /\ st = "enter"}, k \in {"ok", "fail"}} \cup
    (IF st = "in" THEN {[e |-> "exit"]} ELSE {}) \cup
    {[e |-> "down", s |-> s] : s \in {s \in DOMAIN stops : ~stops[s]}} \cup
    (IF now < MaxTime /\ IdleOK THEN {[e |-> "adv", t |-> now + Unit]} ELSE {})
SysEvents ==
    (IF st = "enter" THEN {[e |-> "begin", s |-> s] : s \in All \ begun} ELSE {}) \cup
    (IF st = "exit" THEN {[e |-> "stop", s |-> s] : s \in All \ DOMAIN stops} ELSE {}) \cup
    {[e |-> "msg", m |-> m, x |-> IF m = "usec" THEN cfg.iv * 1000 ELSE cfg.n + 1] :
        m \in {"starting", "usec", "watchdog", "started", "ready", "stopping", "bye"}} \cup
    {[e |-> "entered", r |-> r] : r \in {"ok", "fail"}} \cup {[e |-> "left"]}
MCInit == /\ \E n \in Ns, k \in Socks, a \in Ivs, b \in Envs : InitWith([n |-> n, sock |-> k, iv |-> a, env |-> b])
          /\ hist = <<>> /\ begun = {}
B(ev) == begun' = (IF ev.e = "begin" THEN begun \cup {ev.s} ELSE begun)
\* the watchdog service itself starts with the others
SysStep(ev) == (ev.e = "entered" => Failed \/ AllUp) /\ (ev.e = "msg" /\ ev.m = "started" => ~Sent("ready")) /\ Step(ev) /\ B(ev)
SysNext == \E ev \in SysEvents : SysStep(ev)
EnvNext == \E ev \in EnvEvents : Step(ev) /\ begun' = begun
MCNext == (EnvNext \/ SysNext \/ (Idle /\ UNCHANGED begun)) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist, begun>>
Obligations == IdleOK \/ ENABLED SysNext
GenNext == (\E ev \in EnvEvents : Step(ev) /\ begun' = begun /\ hist' = Append(hist, ev)) \/ (SysNext /\ UNCHANGED hist)
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
