------------------------------ MODULE MCBackoff ------------------------------
EXTENDS Backoff, Json
CONSTANTS Calls, MaxTime, MaxTries, Attempts, Deadlines, Pauses, Tries, Excs, Giveups, Depth
VARIABLES hist, started
Running == {c \in DOMAIN calls : calls[c].st = "run"}
EnvEvents ==
    {[e |-> "call", c |-> c] : c \in {c \in Calls : c \notin DOMAIN calls /\ c - 1 = Cardinality(DOMAIN calls)}} \cup
    {[e |-> "cancel", c |-> c] : c \in {c \in DOMAIN calls : calls[c].st # "done" /\ ~calls[c].cxl}} \cup
    {[e |-> "attEnd", c |-> c, k |-> "ok", n |-> "", id |-> calls[c].tries] : c \in Running} \cup
    {[e |-> "attEnd", c |-> c, k |-> "raise", n |-> n, id |-> calls[c].tries] : c \in Running, n \in {"A", "B", "C", "T"}} \cup
    (IF now < MaxTime THEN {[e |-> "adv", t |-> now + 1]} ELSE {})
SysEvents ==
    {[e |-> "att", c |-> c, same |-> TRUE] : c \in {c \in DOMAIN calls : calls[c].tries < MaxTries}} \cup
    {[e |-> "attCancelled", c |-> c] : c \in Running} \cup
    {[e |-> "ret", c |-> c, k |-> "ok", n |-> "", id |-> calls[c].id] : c \in DOMAIN calls} \cup
    {[e |-> "ret", c |-> c, k |-> "raise", n |-> calls[c].fname, id |-> calls[c].fid] : c \in DOMAIN calls} \cup
    {[e |-> "ret", c |-> c, k |-> "cancelled", n |-> "", id |-> 0] : c \in DOMAIN calls}
MCInit == /\ \E a \in Attempts, d \in Deadlines, p \in Pauses, t \in Tries, x \in Excs, g \in Giveups :
                InitWith([attempt |-> a, deadline |-> d, pause |-> p, tries |-> t, exc |-> x, giveup |-> g, stat |-> FALSE])
          /\ hist = <<>> /\ started = TRUE
SysNext == \E ev \in SysEvents : Step(ev)
EnvNext == \E ev \in EnvEvents : (ev.e = "adv" => IdleOK) /\ Step(ev)
MCNext == (EnvNext \/ SysNext) /\ UNCHANGED <<hist, started>>
MCSpec == MCInit /\ [][MCNext]_<<vars, hist, started>>
Capped == \E c \in DOMAIN calls : calls[c].tries >= MaxTries
Obligations == IdleOK \/ Capped \/ ENABLED SysNext
GenNext == \/ \E ev \in EnvEvents : (ev.e = "adv" => IdleOK) /\ Step(ev) /\ hist' = Append(hist, ev) /\ UNCHANGED started
           \/ SysNext /\ UNCHANGED <<hist, started>>
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
AttemptsVal == {-1, 1, 2}
DeadlinesSmall == {-1, 3}
DeadlinesLarge == {-1, 2, 3, 5}
ExcsSmall == {<<>>, <<"A">>}
ExcsLarge == {<<>>, <<"A">>, <<"B", "C">>, <<"Exception">>}
GiveupsSmall == {<<>>, <<"B">>}
GiveupsLarge == {<<>>, <<"B">>, <<"T">>}
StatView == <<cfg, now, calls>>
=============================================================================
