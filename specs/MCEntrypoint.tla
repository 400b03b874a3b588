---------------------------- MODULE MCEntrypoint ----------------------------
EXTENDS Entrypoint, Json, SequencesExt
CONSTANTS Modes, NS, ND, NBg, NWait, Tmo, MaxT, Depth
VARIABLES hist
ModesAll == {"with", "async"}
ModesGen == {"with", "forever", "async", "run"}
S(ss) == SetToSortSeq(ss, LAMBDA a, b : a < b)
Hooks == {"pre_start", "post_start", "pre_stop", "post_stop"}
\* hooks which are being executed: <<hook, group, services>>
Open == {<<"pre_start", g, S(grp[g].ss)>> : g \in {g \in DOMAIN grp : grp[g].pre = "run"}} \cup
        {<<"post_start", g, S(grp[g].ss)>> : g \in {g \in DOMAIN grp : grp[g].post = "run"}} \cup
        {<<"pre_stop", b, S(bat[b].ss)>> : b \in {b \in DOMAIN bat : bat[b].pre = "run"}} \cup
        {<<"post_stop", b, S(bat[b].ss)>> : b \in {b \in DOMAIN bat : bat[b].post = "run"}}
Dyn == (DOMAIN grp \cup DOMAIN bat) \ {0}
Busy == \E g \in DOMAIN grp \ {0} : grp[g].st = "run"
BusyB == \E b \in DOMAIN bat \ {0} : bat[b].st = "run"
NewD == Cardinality(Dyn) + 1
EnvEvents ==
    (IF ph = "init" THEN {[e |-> "enter", mode |-> cfg.mode, ss |-> [i \in 1..n |-> i]] : n \in 0..NS} ELSE {}) \cup
    (IF ph = "entered" /\ NewD <= ND /\ Cardinality(DOMAIN svc) < NS
       THEN {[e |-> "dstart", g |-> NewD, ss |-> <<Cardinality(DOMAIN svc) + 1>>]} ELSE {}) \cup
    (IF ph = "entered" /\ NewD <= ND /\ ~Busy
       THEN {[e |-> "dstop", b |-> NewD, ss |-> <<s>>] :
               s \in {s \in DOMAIN svc : svc[s].st = "ended" /\ svc[s].stop = "no" /\ ~\E b \in DOMAIN bat : s \in bat[b].ss}} ELSE {}) \cup
    {[e |-> "sev", s |-> s] : s \in {s \in Running : ~svc[s].ev}} \cup
    UNION {{[e |-> "send", s |-> s, k |-> k] : k \in IF svc[s].creq > 0 THEN {"cancelled"} ELSE {"ok", "raise"}} : s \in Running} \cup
    UNION {{[e |-> "pend", s |-> s, k |-> k] : k \in IF svc[s].pcreq > 0 THEN {"cancelled"} ELSE {"ok", "raise"}} : s \in {s \in DOMAIN svc : svc[s].stop = "run"}} \cup
    {[e |-> "hook", h |-> o[1], a |-> "e", g |-> o[2], ss |-> o[3]] : o \in Open} \cup
    (IF ph = "entered" THEN {[e |-> "bg", x |-> x] : x \in (1..NBg) \ DOMAIN bgs} ELSE {}) \cup
    {[e |-> "bgend", x |-> x] : x \in {x \in DOMAIN bgs : bgs[x].st = "run"}} \cup
    (IF ph = "entered" /\ Cardinality(waiters) < NWait THEN {[e |-> "wait", w |-> Cardinality(waiters) + 1]} ELSE {}) \cup
    (IF ph = "entered" /\ ~Busy /\ ~BusyB THEN {[e |-> "intr"]} ELSE {}) \cup
    (IF ph \in {"entered", "stopping"} /\ causes \subseteq {"intr"} /\ ~Busy /\ ~BusyB THEN {[e |-> "exit", k |-> k] : k \in {"none", "exc"}} ELSE {}) \cup
    (IF now < MaxT /\ ~over THEN {[e |-> "adv", t |-> now + 1]} ELSE {})
SysEvents ==
    IF over THEN {} ELSE
    {[e |-> "hook", h |-> h, a |-> "b", g |-> g, ss |-> S(grp[g].ss)] : h \in {"pre_start", "post_start"}, g \in DOMAIN grp} \cup
    {[e |-> "hook", h |-> h, a |-> "b", g |-> b, ss |-> S(bat[b].ss)] : h \in {"pre_stop", "post_stop"}, b \in {b \in DOMAIN bat : b # 0 \/ bat[b].pre # "done"}} \cup
    (IF 0 \in DOMAIN bat THEN {[e |-> "hook", h |-> "post_stop", a |-> "b", g |-> 0, ss |-> S(bat[0].ss)]} ELSE {}) \cup
    (IF ph = "stopping" /\ (0 \notin DOMAIN bat \/ (bat[0].st = "run" /\ bat[0].pre = "cancelled"))
       THEN {[e |-> "hook", h |-> "pre_stop", a |-> "b", g |-> 0, ss |-> S(Live)]} ELSE {}) \cup
    {[e |-> "sbegin", s |-> s, ok |-> TRUE] : s \in DOMAIN svc} \cup
    {[e |-> "screq", s |-> s] : s \in {s \in Running : svc[s].creq = 0}} \cup
    {[e |-> "pbegin", s |-> s, x |-> x] : s \in DOMAIN svc, x \in causes \cup {"none"}} \cup
    {[e |-> "pcreq", s |-> s] : s \in {s \in DOMAIN svc : svc[s].stop = "run" /\ svc[s].pcreq = 0}} \cup
    (IF ph # "entering" THEN {} ELSE {[e |-> "entered", k |-> "ok", s |-> 0]} \cup {[e |-> "entered", k |-> "raise", s |-> s] : s \in DOMAIN svc}) \cup
    UNION {{[e |-> "dstarted", g |-> g, k |-> "ok", s |-> 0]} \cup {[e |-> "dstarted", g |-> g, k |-> "raise", s |-> s] : s \in DOMAIN svc}
             : g \in {g \in DOMAIN grp : g # 0 /\ grp[g].st = "run"}} \cup
    {[e |-> "bgcreq", x |-> x] : x \in {x \in DOMAIN bgs : bgs[x].st = "run" /\ bgs[x].creq = 0}} \cup
    {[e |-> "closed", w |-> w] : w \in waiters} \cup
    (IF tint >= 0 /\ ph = "stopping" THEN {[e |-> "exit70", fin |-> TRUE]} \cup (IF ~Owner THEN {[e |-> "loopstop"]} ELSE {}) ELSE {}) \cup
    {[e |-> "exited", k |-> "ok", s |-> 0, ctx |-> TRUE]}
MCInit == (\E m \in Modes : InitWith([mode |-> m, tmo |-> Tmo])) /\ hist = <<>>
SysNext == \E ev \in SysEvents : Step(ev)
MCNext == ((~over /\ \E ev \in EnvEvents : Step(ev)) \/ SysNext \/ (~over /\ Idle)) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Obligations == IdleOK \/ ENABLED SysNext
Once == [][\A s \in DOMAIN svc : s \in DOMAIN svc' /\ (svc[s].stop # "no" => svc'[s].stop # "no") /\ (svc[s].st # "new" => svc'[s].st # "new")]_vars
GenNext == \/ ~over /\ \E ev \in EnvEvents : Step(ev) /\ hist' = Append(hist, ev)
           \/ SysNext /\ UNCHANGED hist
           \/ over /\ UNCHANGED <<vars, hist>>
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
