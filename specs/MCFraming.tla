----------------------------- MODULE MCFraming -----------------------------
EXTENDS Framing, Json
CONSTANTS NPackets, Lens, Depth
VARIABLES hist
EnvEvents ==
    (IF Len(sizes) < NPackets /\ ~busy /\ ~eof THEN {[e |-> "send", i |-> Len(sizes) + 1, n |-> n] : n \in Lens} ELSE {}) \cup
    (IF ~eof THEN {[e |-> "chunk", n |-> n] : n \in 1..(wired - avail)} \cup {[e |-> "eof"]} ELSE {}) \cup
    (IF ~asking THEN {[e |-> "recv"]} ELSE {})
SysEvents ==
    (IF wired < Total THEN {[e |-> "wire", n |-> n] : n \in 1..(Total - wired)} ELSE {}) \cup
    (IF busy THEN {[e |-> "sent", i |-> Len(sizes)]} ELSE {}) \cup
    (IF asking THEN {[e |-> "got", i |-> got + 1, ok |-> TRUE], [e |-> "err"]} ELSE {})
MCInit == InitWith([x |-> 0]) /\ hist = <<>>
SysNext == (\E ev \in SysEvents : Step(ev)) /\ UNCHANGED hist
MCNext == \/ \E ev \in EnvEvents : Step(ev) /\ UNCHANGED hist
          \/ SysNext
          \/ Idle /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Obligations == IdleOK \/ ENABLED SysNext
GenNext == \/ \E ev \in EnvEvents : Step(ev) /\ hist' = Append(hist, ev)
           \/ SysNext
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
