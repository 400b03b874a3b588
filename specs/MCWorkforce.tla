--------------------------- MODULE MCWorkforce ---------------------------
EXTENDS Workforce, Json
CONSTANTS NCalls, NKills, Kinds, N, Inits, Depth
VARIABLES hist, alive, kills
\* the processes which exist; a lost one is replaced by one with a new number
mc == <<hist, alive, kills>>
Last == IF alive = {} THEN 0 ELSE CHOOSE x \in alive : \A y \in alive : y <= x
Fresh == 1 + (kills * 10)
Free == {p \in alive : \A c \in Running : calls[c].p # p}
EnvEvents ==
    (IF Cardinality(CIds) < NCalls THEN {[e |-> "call", c |-> Cardinality(CIds) + 1, k |-> k] : k \in Kinds} ELSE {}) \cup
    {[e |-> "release", c |-> c] : c \in {c \in CIds : calls[c].p # 0 /\ calls[c].out = "" /\ ~calls[c].rel /\ ~calls[c].kill}} \cup
    {[e |-> "cancel", c |-> c] : c \in {c \in CIds : calls[c].out = "" /\ ~calls[c].canc}} \cup
    (IF kills < NKills THEN {[e |-> "kill", p |-> p] : p \in alive} ELSE {}) \cup
    (IF pool.closing THEN {} ELSE {[e |-> "close"]})
SysEvents ==
    {[e |-> "began", c |-> c, p |-> p] : c \in Waiting, p \in Free} \cup
    {[e |-> "ret", c |-> c, k |-> k] : c \in {c \in CIds : calls[c].out = ""}, k \in {"ok", "exc", "err", "lost", "cancelled", "closed", "init"}} \cup
    (IF pool.closing /\ ~pool.closed THEN {[e |-> "closed"]} ELSE {}) \cup
    {[e |-> "idle"]}
MCInit == /\ \E n \in N, i \in Inits : InitWith([n |-> n, init |-> i])
          /\ hist = <<>> /\ kills = 0 /\ alive = 1..cfg.n
Move(ev) == /\ Step(ev)
            /\ alive' = IF ev.e = "kill" THEN (alive \ {ev.p}) \cup {ev.p + 10} ELSE alive
            /\ kills' = IF ev.e = "kill" THEN kills + 1 ELSE kills
SysNext == \E ev \in SysEvents : Move(ev)
MCNext == ((\E ev \in EnvEvents : Move(ev)) \/ SysNext) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, mc>>
\* every call may be answered, unless it waits for something which has not happened
Obligations == /\ \A c \in CIds : (calls[c].out = "" /\ ((calls[c].rel /\ calls[c].p # 0) \/ calls[c].kill \/ calls[c].canc \/ pool.closing)) => Outs(c) # {}
               /\ (~pool.closing /\ cfg.init # "bad" /\ Waiting # {} /\ Cardinality(Running) < cfg.n) =>
                     \E c \in Waiting, p \in Free : ENABLED Began(c, p)
GenNext == \/ \E ev \in EnvEvents : Move(ev) /\ hist' = Append(hist, ev)
           \/ SysNext /\ UNCHANGED hist
           \/ UNCHANGED <<vars, mc>>
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
