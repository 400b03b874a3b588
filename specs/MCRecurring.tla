---------------------------- MODULE MCRecurring ----------------------------
EXTENDS Recurring, Json
CONSTANTS NRuns, MaxTime, MaxCalls, Modes, Intervals, Delays, Unit, Depth
VARIABLES hist
Next1 == Cardinality(DOMAIN runs) + 1
Act == {i \in DOMAIN runs : Active(i)}
EnvEvents ==
    (IF Next1 <= NRuns THEN {[e |-> "start", i |-> Next1, r |-> cfg.mode = "recurring" \/ ~AnyActive]} ELSE {}) \cup
    {[e |-> "answer", i |-> i, k |-> a[1], d |-> a[2]] :
        i \in {i \in DOMAIN runs : runs[i].st = "answer"},
        a \in {<<"delay", 0>>, <<"delay", Unit>>, <<"delay", 2 * Unit>>, <<"skip", Unit>>, <<"stop", 0>>}} \cup
    {[e |-> "end", i |-> i, k |-> k] : i \in {i \in DOMAIN runs : runs[i].st = "run" /\ ~runs[i].got},
                                       k \in {"ok", "raise", "selfcancel"}} \cup
    {[e |-> "end", i |-> i, k |-> "cleanup"] : i \in {i \in DOMAIN runs : runs[i].st = "run" /\ runs[i].got}} \cup
    {[e |-> "stop", i |-> i] : i \in Act} \cup
    (IF now < MaxTime THEN {[e |-> "adv", t |-> now + Unit]} ELSE {})
SysEvents ==
    UNION {{[e |-> "strat", i |-> i], [e |-> "cancelled", i |-> i],
            [e |-> "stopped", i |-> i, k |-> IF Service THEN "ok" ELSE "cancelled"]} : i \in DOMAIN runs} \cup
    {[e |-> "run", i |-> i, same |-> TRUE] : i \in IF count.calls < MaxCalls THEN DOMAIN runs ELSE {}}
Init0 == /\ \E m \in Modes, s \in BOOLEAN, iv \in Intervals, d \in Delays :
                InitWith([mode |-> m, delay |-> d * Unit, interval |-> iv * Unit, shield |-> s,
                          sec |-> <<0, 2>>, min |-> <<0, 1>>, hour |-> <<0>>, dow |-> <<1>>, dow0 |-> 1])
         /\ hist = <<>>
SysStep(ev) == /\ (ev.e = "cancelled" => ~runs[ev.i].got)
               /\ (ev.e = "stopped" => runs[ev.i].cxl)
               /\ Step(ev)
SysNext == \E ev \in SysEvents : SysStep(ev)
EnvNext == \E ev \in EnvEvents : (ev.e = "adv" => IdleOK) /\ Step(ev)
MCNext == (EnvNext \/ SysNext) /\ UNCHANGED hist
MCSpec == Init0 /\ [][MCNext]_<<vars, hist>>
Obligations == IdleOK \/ count.calls >= MaxCalls \/ ENABLED SysNext
GenNext == \/ \E ev \in EnvEvents : (ev.e = "adv" => IdleOK) /\ Step(ev) /\ hist' = Append(hist, ev)
           \/ SysNext /\ UNCHANGED hist
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
