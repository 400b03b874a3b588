------------------------------- MODULE MCFile -------------------------------
EXTENDS File, Json
CONSTANTS NOps, NPar, Depth, Kinds, Encs, Names
VARIABLES hist, got
A == <<65>>
NL == <<66, 10>>
EA == IF cfg.text /\ cfg.enc = "utf-8" THEN <<195, 169>> ELSE <<233>>
Opd(w) == w.st # "new"
Args(op) == CASE op = "read" -> {<<-1, 0, <<>>, <<>>>>, <<1, 0, <<>>, <<>>>>, <<2, 0, <<>>, <<>>>>}
              [] op = "readline" -> {<<-1, 0, <<>>, <<>>>>, <<1, 0, <<>>, <<>>>>}
              [] op = "readlines" -> {<<-1, 0, <<>>, <<>>>>, <<3, 0, <<>>, <<>>>>}
              [] op = "readinto" -> {<<2, 0, <<>>, <<>>>>}
              [] op = "write" -> {<<0, 0, b, <<>>>> : b \in {A, NL, EA, <<>>}}
              [] op = "writelines" -> {<<0, 0, <<>>, <<A, NL>>>>}
              [] op = "seek" -> {<<0, 0, <<>>, <<>>>>, <<1, 0, <<>>, <<>>>>, <<0, 2, <<>>, <<>>>>, <<-1, 1, <<>>, <<>>>>, <<4, 0, <<>>, <<>>>>}
              [] op = "truncate" -> {<<-1, 0, <<>>, <<>>>>, <<2, 0, <<>>, <<>>>>}
              [] op = "leave" -> {<<0, m, <<>>, <<>>>> : m \in 0..2}
              [] OTHER -> {<<0, 0, <<>>, <<>>>>}
Has(op, sts) == \E o \in OIds : ops[o].op = op /\ ops[o].st \in sts
Allowed(op) == CASE op = "enter" -> ~Has("enter", {"called", "returned", "ghost"})
                 [] op = "leave" -> Has("enter", {"returned"}) /\ ~Has("leave", {"called", "returned", "ghost"}) /\ (\A w \in worlds : Opd(w))
                 [] op = "open" -> TRUE
                 [] op = "close" -> TRUE
                 [] OTHER -> \A w \in worlds : Opd(w)
EnvEvents ==
    (IF Cardinality(OIds) < NOps /\ Cardinality(Pending) < NPar
     THEN UNION {{[e |-> "call", o |-> Cardinality(OIds) + 1, op |-> k, n |-> a[1], m |-> a[2], b |-> a[3], l |-> a[4]] : a \in Args(k)}
                 : k \in {k \in Names : Allowed(k)}} ELSE {}) \cup
    (IF NPar > 1 THEN {[e |-> "cancel", o |-> o] : o \in {o \in Pending : ~ops[o].canc}} ELSE {})
Na == [R0 EXCEPT !.t = "na"]
SysEvents ==
    LET ws == Fix(worlds) IN
    UNION {{[e |-> "ret", o |-> o, r |-> IF w.done[o].t = "any" THEN R0 ELSE IF ops[o].op = "leave" THEN [w.done[o] EXCEPT !.n = 1] ELSE w.done[o], ref |-> Na]
            : w \in {w \in ws : o \in DOMAIN w.done}} : o \in Pending} \cup
    {[e |-> "ret", o |-> o, r |-> [R0 EXCEPT !.t = "cancelled"], ref |-> Na] : o \in {o \in Pending : ops[o].canc}}
Modes == {[mode |-> "r", rd |-> TRUE, wr |-> FALSE], [mode |-> "r", rd |-> TRUE, wr |-> TRUE],
          [mode |-> "w", rd |-> FALSE, wr |-> TRUE], [mode |-> "w", rd |-> TRUE, wr |-> TRUE],
          [mode |-> "a", rd |-> FALSE, wr |-> TRUE], [mode |-> "a", rd |-> TRUE, wr |-> TRUE],
          [mode |-> "x", rd |-> TRUE, wr |-> TRUE]}
Inits == {[b |-> <<>>, ex |-> FALSE], [b |-> <<65, 10, 66, 10, 67>>, ex |-> TRUE]}
MCInit == /\ hist = <<>> /\ got = 0
          /\ \E k \in Kinds, t \in {TRUE, FALSE}, e \in Encs, m \in Modes, i \in Inits :
               /\ k # "plain" => ~(m.rd /\ m.wr)
               /\ ~t => e = "utf-8"
               /\ InitWith([kind |-> k, text |-> t, enc |-> e, mode |-> m.mode, rd |-> m.rd, wr |-> m.wr, init |-> i.b, ex |-> i.ex])
Weight(r) == Len(r.b) + Len(Concat(r.l))
SysStep(ev) == Step(ev) /\ got' = got + (IF ev.r.t \in {"b", "l"} THEN Weight(ev.r) ELSE 0)
SysNext == \E ev \in SysEvents : SysStep(ev)
MCNext == ((\E ev \in EnvEvents : Step(ev)) /\ UNCHANGED <<hist, got>>) \/ (SysNext /\ UNCHANGED hist)
MCSpec == MCInit /\ [][MCNext]_<<vars, hist, got>>
Obligations == Pending = {} \/ ENABLED SysNext
\* nothing is read twice or skipped as long as nobody moves the position
ReadOnce == /\ \A o \in OIds : ops[o].op \in {"open", "enter", "read", "readline", "readlines", "next", "readinto", "tell"} /\ ~ops[o].canc
            /\ Pending = {}
            => \A w \in worlds : w.st = "new" \/ cfg.mode = "a" \/ w.un \/ w.p = got
GenNext == \/ \E ev \in EnvEvents : Step(ev) /\ hist' = Append(hist, ev) /\ UNCHANGED got
           \/ SysNext /\ UNCHANGED hist
           \/ UNCHANGED <<vars, hist, got>>
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
