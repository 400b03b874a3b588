----------------------------- MODULE MCCounters -----------------------------
EXTENDS Counters, Json
CONSTANTS N, V, Depth
VARIABLES hist
Kinds == {"base", "child", "grand", "other", "alone"}
Next1 == CHOOSE i \in 1..(N + 1) : i \notin DOMAIN live /\ \A j \in 1..(i - 1) : j \in DOMAIN live
Events ==
    {[e |-> "new", i |-> Next1, kind |-> k, name |-> ToString(Next1)] : k \in IF Next1 <= N THEN Kinds ELSE {}} \cup
    UNION {{[e |-> "op", i |-> i, m |-> m, o |-> o, v |-> v] : m \in DOMAIN live[i].vals, o \in {"add", "sub", "set"}, v \in 0..V} : i \in DOMAIN live} \cup
    {[e |-> "drop", i |-> i] : i \in DOMAIN live}
MCInit == InitWith([x |-> 0]) /\ hist = <<>>
MCNext == (\E ev \in Events : Step(ev)) /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Small == \A i \in DOMAIN live : \A m \in DOMAIN live[i].vals : live[i].vals[m] \in 0..V
GenNext == \E ev \in Events : Step(ev) /\ hist' = Append(hist, ev)
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
