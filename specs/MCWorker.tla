------------------------------ MODULE MCWorker ------------------------------
EXTENDS Worker, Json
CONSTANTS NReqs, NSigs, Kinds, Depth
VARIABLES hist, sigs, replies
EnvEvents ==
    (IF ph = "wait" /\ ~left THEN {[e |-> "welcome", r |-> r] : r \in {"ok", "fail"}} ELSE {}) \cup
    (IF ph = "idle" /\ cur < NReqs /\ ~left THEN {[e |-> "req", i |-> cur + 1, k |-> k] : k \in Kinds} ELSE {}) \cup
    (IF ph = "idle" /\ ~left THEN {[e |-> "eof"]} ELSE {})
SigEvents == IF ph \notin {"dead", "start", "wait"} /\ sigs < NSigs THEN {[e |-> "sig"]} ELSE {}
RunEvents ==
    (IF ph = "run" THEN {[e |-> "ran", i |-> cur, h |-> h] :
        h \in (IF kind = "catch" THEN {"ok"} ELSE IF kind \in {"ok", "unsent"} THEN {"ok"} \cup (IF hit THEN {"cancelled"} ELSE {}) ELSE
               IF kind = "cancel" THEN {"cancelled"} ELSE IF kind = "exit" THEN {"exit"} ELSE {"exc"})} ELSE {})
SysEvents ==
    (IF ph = "start" THEN {[e |-> "auth", ok |-> TRUE]} ELSE {}) \cup
    (IF ph = "req" THEN {[e |-> "run", i |-> cur]} ELSE {}) \cup
    (IF ph \in {"req", "ran"} /\ how # "exit" THEN {[e |-> "reply", i |-> cur, r |-> r] : r \in {"ok", "exc", "cancelled"}} ELSE {}) \cup
    (IF ph \notin {"dead", "start"} THEN {[e |-> "exit"]} ELSE {})
MCInit == InitWith([m |-> "run"]) /\ hist = <<>> /\ sigs = 0 /\ replies = <<>>
SysNext == \E ev \in SysEvents : Step(ev) /\ replies' = (IF ev.e = "reply" THEN Append(replies, ev) ELSE replies) /\ UNCHANGED <<hist, sigs>>
Keep == UNCHANGED <<sigs, replies>>
MCNext == \/ \E ev \in EnvEvents : Step(ev) /\ Keep /\ UNCHANGED hist
          \/ \E ev \in SigEvents : Step(ev) /\ sigs' = sigs + 1 /\ UNCHANGED <<hist, replies>>
          \/ \E ev \in RunEvents : Step(ev) /\ Keep /\ UNCHANGED hist
          \/ SysNext
          \/ Idle /\ Keep /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist, sigs, replies>>
Obligations == IdleOK \/ ph = "run" \/ ENABLED SysNext
OneReply == \A a, b \in DOMAIN replies : a # b => replies[a].i # replies[b].i
NoSignalNoCancel == sigs = 0 => \A a \in DOMAIN replies : replies[a].r = "cancelled" => "cancel" \in Kinds
GenNext == \/ \E ev \in EnvEvents : Step(ev) /\ hist' = Append(hist, ev) /\ Keep
           \/ \E ev \in SigEvents : Step(ev) /\ sigs' = sigs + 1 /\ hist' = Append(hist, [e |-> "sig", p |-> ph]) /\ UNCHANGED replies
           \/ (\E ev \in RunEvents : Step(ev)) /\ Keep /\ UNCHANGED hist
           \/ SysNext
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
