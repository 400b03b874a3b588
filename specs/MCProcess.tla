----------------------------- MODULE MCProcess -----------------------------
EXTENDS Process, Json
CONSTANTS NProcs, Modes, Times, MaxTime, Unit, Depth
VARIABLES hist
EnvEvents ==
    (IF st = "new" THEN {[e |-> "start"]} ELSE {}) \cup
    (IF st = "up" THEN {[e |-> "stop"]} ELSE {}) \cup
    {[e |-> "boot", p |-> p] : p \in {p \in DOMAIN procs : procs[p].c = "spawn" /\ procs[p].alive}} \cup
    {[e |-> "over", p |-> p, k |-> k] : p \in {p \in DOMAIN procs : procs[p].c = "hook" /\ procs[p].alive}, k \in {"ok", "raise"}} \cup
    {[e |-> "dead", p |-> p] : p \in {p \in DOMAIN procs : procs[p].alive}} \cup
    (IF now < MaxTime /\ IdleOK THEN {[e |-> "adv", t |-> now + Unit]} ELSE {})
SysEvents ==
    (IF Cur < NProcs THEN {[e |-> "spawn", p |-> Cur + 1]} ELSE {}) \cup
    UNION {{[e |-> "up", p |-> p], [e |-> "fin", p |-> p]} \cup
           (IF procs[p].alive /\ ~procs[p].sig THEN {[e |-> "sigint", p |-> p]} ELSE {}) \cup
           {[e |-> "hook", p |-> p, x |-> TRUE]} : p \in DOMAIN procs} \cup
    (IF st # "new" THEN {[e |-> "started", r |-> r] : r \in {"ok", "error", "cancelled"}} \cup {[e |-> "stopped", r |-> "ok"]} ELSE {})
MCInit == /\ \E m \in Modes, a \in Times, b \in Times : InitWith([resp |-> m, poll |-> a, tmo |-> b])
          /\ hist = <<>>
SysStep(ev) == (ev.e \in {"up", "fin", "hook"} => procs[ev.p].alive) /\ Step(ev)
\* a killed child is gone at once
KillNow(p) == /\ C(N, "killed_before_stop", st = "stopping")
              /\ C(N, "killed_too_early", procs[p].sig /\ now >= tsig + cfg.tmo)
              /\ procs[p].alive
              /\ Set(p, [procs[p] EXCEPT !.alive = FALSE, !.td = now, !.killed = TRUE]) /\ UNCHANGED <<cfg, now, st, run, tsig>>
SysNext == (\E ev \in SysEvents : SysStep(ev)) \/ \E p \in DOMAIN procs : KillNow(p)
EnvNext == \E ev \in EnvEvents : Step(ev)
MCNext == (EnvNext \/ SysNext \/ Idle) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
\* nothing the system has to do is forbidden to it
Obligations == IdleOK \/ Cur = NProcs \/ ENABLED SysNext
GenNext == (\E ev \in EnvEvents : Step(ev) /\ hist' = Append(hist, ev)) \/ (SysNext /\ UNCHANGED hist)
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
