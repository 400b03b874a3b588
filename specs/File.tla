-------------------------------- MODULE File --------------------------------
(* Asynchronous files (aiomisc.io).

   The file is a sequence of bytes with a position.  Several operations may be in
   progress at once: each takes effect at one moment between its call and its
   return, so the state is the set of all worlds which explain what was returned
   so far.  An operation whose caller was cancelled may take effect later or never.
   Where the behaviour of an ordinary file is peculiar (text files written after a
   partial read and the like) a world becomes undefined (un) and explains anything;
   there the results are compared only with those of an ordinary file (ref).

   Environment: call(o,op,n,m,b,l)  an operation is called: arguments are numbers n and m, bytes b, a list l
                cancel(o)
   System:      ret(o,r,ref)  it returns r;  ref: what an ordinary file does ("na": not compared)
                final(b,ok,ref)  content once everything is over
   op "enter" and "leave" enter and leave the context manager, "leave" with m = 0: normally,
   1: an exception, 2: cancelled.  Its result says whether the file is closed then (n).    *)
EXTENDS Clauses

VARIABLES cfg, worlds, ops
vars == <<cfg, worlds, ops>>
F == "F01"
OIds == DOMAIN ops
Pending == {o \in OIds : ops[o].st = "called"}
Ghosts == {o \in OIds : ops[o].st = "ghost"}

\* --- results
R0 == [t |-> "none", n |-> 0, b |-> <<>>, l |-> <<>>, x |-> ""]
RB(b) == [R0 EXCEPT !.t = "b", !.b = b]
RN(n) == [R0 EXCEPT !.t = "n", !.n = n]
RL(l) == [R0 EXCEPT !.t = "l", !.l = l]
RE(x) == [R0 EXCEPT !.t = "err", !.x = x]
RAny == [R0 EXCEPT !.t = "any"]
\* the kind of an error is only compared where it matters
Match(r, a) == \/ a.t = "any"
               \/ a.t = "err" /\ r.t = "err" /\ a.x \in {"", r.x}
               \/ r = a

\* --- bytes and characters
Unit(b) == IF cfg.text /\ cfg.enc = "utf-8" THEN b < 128 \/ b >= 192 ELSE TRUE
Units(b) == Cardinality({i \in DOMAIN b : Unit(b[i])})
\* a character (of at most two bytes) is torn, or a line ends in another way
Torn(c) == cfg.text /\ \E i \in DOMAIN c :
              \/ c[i] = 13
              \/ cfg.enc = "utf-8" /\ c[i] >= 192 /\ (i = Len(c) \/ c[i + 1] \notin 128..191)
              \/ cfg.enc = "utf-8" /\ c[i] \in 128..191 /\ (i = 1 \/ c[i - 1] < 192)
Boundary(c, p) == p >= Len(c) \/ Unit(c[p + 1])
RECURSIVE CharEnd(_, _), Skip(_, _, _), Concat(_)
CharEnd(c, q) == IF q >= Len(c) THEN q ELSE IF Unit(c[q + 1]) THEN q ELSE CharEnd(c, q + 1)
Skip(c, p, n) == IF n = 0 \/ p >= Len(c) THEN p ELSE Skip(c, CharEnd(c, p + 1), n - 1)
LineEnd(c, p) == LET N == {i \in (p + 1)..Len(c) : c[i] = 10}
                 IN IF N = {} THEN Max(p, Len(c)) ELSE CHOOSE i \in N : \A k \in N : i <= k
Concat(l) == IF l = <<>> THEN <<>> ELSE l[1] \o Concat(Tail(l))
RECURSIVE Lines(_, _, _, _, _)
\* lines from p until their size is more than (or reaches) the limit
Lines(c, p, got, lim, reach) ==
    IF p >= Len(c) THEN [l |-> <<>>, p |-> p]
    ELSE LET q == LineEnd(c, p)
             s == got + Units(SubSeq(c, p + 1, q))
         IN IF lim > 0 /\ (s > lim \/ (reach /\ s = lim)) THEN [l |-> <<SubSeq(c, p + 1, q)>>, p |-> q]
            ELSE LET r == Lines(c, q, s, lim, reach) IN [l |-> <<SubSeq(c, p + 1, q)>> \o r.l, p |-> r.p]
Zeros(n) == [i \in 1..n |-> 0]
Resize(c, n) == IF n <= Len(c) THEN SubSeq(c, 1, n) ELSE c \o Zeros(n - Len(c))
Over(c, p, b) == LET d == IF p > Len(c) THEN Resize(c, p) ELSE c
                 IN SubSeq(d, 1, p) \o b \o SubSeq(d, p + Len(b) + 1, Len(d))

\* --- operations: the set of possible <<world, result>>
Und(w) == {<<[w EXCEPT !.un = TRUE], RAny>>}
Opened(w) ==
    CASE cfg.mode = "r" /\ ~w.ex -> {<<w, RE("FileNotFoundError")>>}
      [] cfg.mode = "x" /\ w.ex -> {<<w, RE("FileExistsError")>>}
      [] OTHER -> LET c == IF cfg.mode \in {"w", "x"} THEN <<>> ELSE w.c
                  IN {<<[w EXCEPT !.st = "open", !.ex = TRUE, !.c = c, !.un = Torn(c), !.p = IF cfg.mode = "a" THEN Len(c) ELSE 0], R0>>}
To(w, q, r) == {<<[w EXCEPT !.p = q, !.ra = cfg.text], r>>}
ReadTo(w, q) == To(w, Max(q, w.p), RB(SubSeq(w.c, w.p + 1, q)))
Read(w, n) == CASE ~cfg.rd -> {<<w, RE("")>>} \cup (IF n = 0 THEN {<<w, RB(<<>>)>>} ELSE {})
                [] n < -1 -> {<<w, RE("")>>} \cup ReadTo(w, Len(w.c))
                [] n = -1 -> ReadTo(w, Len(w.c))
                [] OTHER -> ReadTo(w, Skip(w.c, w.p, n))
ReadLine(w, n) == IF ~cfg.rd THEN {<<w, RE("")>>} \cup (IF n = 0 THEN {<<w, RB(<<>>)>>} ELSE {})
                  ELSE LET q == LineEnd(w.c, w.p) IN ReadTo(w, IF n < 0 THEN q ELSE Min(q, Skip(w.c, w.p, n)))
ReadLines(w, n) == IF ~cfg.rd THEN {<<[w EXCEPT !.nt = cfg.text], RE("")>>}
                   ELSE UNION {LET r == Lines(w.c, w.p, 0, n, x) IN To([w EXCEPT !.nt = cfg.text], r.p, RL(r.l)) : x \in {TRUE, FALSE}}
Nxt(w) == IF ~cfg.rd THEN {<<[w EXCEPT !.nt = cfg.text], RE("")>>}
          ELSE IF w.p >= Len(w.c) THEN To(w, w.p, RE("StopAsyncIteration"))
          ELSE ReadTo([w EXCEPT !.nt = cfg.text], LineEnd(w.c, w.p))
Write(w, b, r) == CASE ~cfg.wr -> {<<w, RE("")>>}
                    [] cfg.text /\ w.ra -> Und(w)
                    [] b = <<>> -> {<<w, r>>}
                    [] cfg.kind # "plain" -> {<<[w EXCEPT !.c = w.c \o b, !.un = Torn(w.c \o b)], r>>}
                    [] cfg.mode = "a" /\ w.p # Len(w.c) -> Und(w)
                    [] OTHER -> LET c == Over(w.c, w.p, b)
                                IN {<<[w EXCEPT !.c = c, !.p = w.p + Len(b), !.un = Torn(c)], r>>}
Seek(w, n, m) ==
    IF cfg.kind # "plain" /\ cfg.wr THEN Und(w)
    ELSE LET base == CASE m = 0 -> 0 [] m = 1 -> w.p [] m = 2 -> Len(w.c) [] OTHER -> 0
             q == base + n
         IN CASE m \notin 0..2 -> {<<w, RE("")>>}
              [] cfg.text /\ m # 0 /\ n # 0 -> {<<w, RE("")>>}
              [] cfg.kind # "plain" /\ (q < 0 \/ q > Len(w.c)) -> Und(w)
              [] q < 0 -> {<<w, RE("")>>}
              [] cfg.text /\ ~Boundary(w.c, q) -> Und(w)
              [] OTHER -> {<<[w EXCEPT !.p = q, !.ra = FALSE, !.nt = FALSE], RN(q)>>}
Truncate(w, n) ==        \* n = -1: at the position
    CASE ~cfg.wr \/ cfg.kind # "plain" -> {<<w, RE("")>>}
      [] cfg.text /\ w.ra -> Und(w)
      [] n < -1 -> {<<w, RE("")>>}
      [] OTHER -> LET s == IF n = -1 THEN w.p ELSE n IN {<<[w EXCEPT !.c = Resize(w.c, s), !.un = Torn(Resize(w.c, s))], RN(s)>>}

B(x) == IF x THEN 1 ELSE 0
Apply(w, o) ==
    LET k == o.op IN
    CASE k \in {"open", "enter"} -> IF w.st = "new" THEN Opened(w) ELSE {<<w, R0>>}
      [] k = "attrs" -> {<<w, RAny>>}
      [] w.st = "new" -> {<<w, RE("")>>}
      [] k = "close" -> {<<[w EXCEPT !.st = "closed"], R0>>}
      [] k = "leave" -> {<<[w EXCEPT !.st = "closed"],
                           CASE o.m = 0 -> [R0 EXCEPT !.n = 1]
                             [] o.m = 1 -> [RE("Boom") EXCEPT !.n = 1]
                             [] OTHER -> [R0 EXCEPT !.t = "cancelled", !.n = 1]>>}
      [] k = "closed" -> {<<w, RN(B(w.st = "closed"))>>}
      [] w.un -> {<<w, RAny>>}
      [] w.st = "closed" /\ k \in {"readable", "writable", "seekable", "flush"} -> {<<w, RAny>>}
      [] w.st = "closed" -> {<<w, RE("")>>} \cup (IF k \in {"read", "readline"} /\ o.n = 0 THEN {<<w, RB(<<>>)>>} ELSE {})
      [] k = "read" -> Read(w, o.n)
      [] k = "readline" -> ReadLine(w, o.n)
      [] k = "readlines" -> ReadLines(w, o.n)
      [] k = "next" -> Nxt(w)
      [] k = "readinto" -> IF cfg.text THEN {<<w, RE("")>>} ELSE Read(w, o.n)
      [] k = "write" -> Write(w, o.b, RN(Units(o.b)))
      [] k = "writelines" -> Write(w, Concat(o.l), R0)
      [] k = "badwrite" -> {<<w, RE("")>>}
      [] k = "seek" -> Seek(w, o.n, o.m)
      \* text files do not tell while they are iterated over
      [] k = "tell" /\ w.nt -> {<<w, IF cfg.kind # "plain" /\ cfg.wr THEN RAny ELSE RN(w.p)>>, <<w, RE("")>>}
      [] k = "tell" -> {<<w, IF cfg.kind # "plain" /\ cfg.wr THEN RAny ELSE RN(w.p)>>}
      [] k = "truncate" -> Truncate(w, o.n)
      [] k = "flush" -> {<<w, R0>>}
      [] k = "readable" -> {<<w, RN(B(cfg.rd))>>}
      [] k = "writable" -> {<<w, RN(B(cfg.wr))>>}
      [] k = "seekable" -> {<<w, IF cfg.kind = "plain" THEN RN(1) ELSE RAny>>}
      [] OTHER -> {<<w, RAny>>}

\* --- all the worlds which may be reached by the operations in progress
Extend(ws) == ws \cup UNION {UNION {
        {[y[1] EXCEPT !.done = MapSet(w.done, o, IF o \in Ghosts THEN R0 ELSE y[2])] : y \in Apply(w, ops[o])}
        : o \in (Pending \cup Ghosts) \ DOMAIN w.done} : w \in ws}
RECURSIVE Fix(_)
Fix(ws) == LET n == Extend(ws) IN IF n = ws THEN ws ELSE Fix(n)
Forget(w, o) == [w EXCEPT !.done = [x \in DOMAIN w.done \ {o} |-> w.done[x]]]

\* --- steps
InitWith(c) == /\ cfg = c /\ ops = EmptyMap
               /\ worlds = {[c |-> c.init, p |-> 0, ex |-> c.ex, st |-> "new", ra |-> FALSE, nt |-> FALSE, un |-> FALSE, done |-> EmptyMap]}
Call(o, op, n, m, b, l) == /\ ops' = MapSet(ops, o, [op |-> op, n |-> n, m |-> m, b |-> b, l |-> l, st |-> "called", canc |-> FALSE])
                           /\ UNCHANGED <<cfg, worlds>>
Cancel(o) == ops' = [ops EXCEPT ![o].canc = TRUE] /\ UNCHANGED <<cfg, worlds>>
Ret(o, r, ref) ==
    /\ C(F, "returned_twice", ops[o].st = "called")
    /\ C(F, "not_as_a_plain_file", ref.t = "na" \/ r = ref)
    /\ IF r.t = "cancelled" /\ ops[o].canc
       THEN /\ ops' = [ops EXCEPT ![o].st = "ghost"]
            /\ worlds' = {IF o \in DOMAIN w.done THEN [w EXCEPT !.done[o] = R0] ELSE w : w \in worlds}
       ELSE /\ C(F, "left_open", ops[o].op = "leave" => r.n = 1)
            /\ LET ws == {Forget(w, o) : w \in {w \in Fix(worlds) : o \in DOMAIN w.done /\ Match(r, w.done[o])}}
               IN /\ C(F, "wrong_result_of_" \o ops[o].op, ws # {})
                  /\ worlds' = ws
            /\ ops' = [ops EXCEPT ![o].st = "returned"]
    /\ UNCHANGED cfg
Final(b, ok, ref) ==
    /\ C(F, "unreadable_file", ok \/ \E w \in worlds : w.un \/ ~w.ex)
    /\ C(F, "content_not_as_a_plain_file", ref.t = "na" \/ ref.b = b)
    /\ C(F, "wrong_content", ~ok \/ \E w \in Fix(worlds) : w.un \/ w.c = b)
    /\ UNCHANGED vars
Left == {o \in OIds : ops[o].op = "leave" /\ ops[o].st # "called"}
IdleOK(cl) ==
    /\ C(F, "does_not_return", Pending = {})
    /\ C(F, "not_closed", Left # {} => cl)
Idle(cl) == IdleOK(cl) /\ UNCHANGED vars

Step(ev) ==
    CASE ev.e = "call" -> Call(ev.o, ev.op, ev.n, ev.m, ev.b, ev.l)
      [] ev.e = "cancel" -> Cancel(ev.o)
      [] ev.e = "ret" -> Ret(ev.o, ev.r, ev.ref)
      [] ev.e = "final" -> Final(ev.b, ev.ok, ev.ref)
      [] ev.e = "idle" -> Idle(ev.cl)
      [] ev.e = "adv" -> UNCHANGED vars
      [] OTHER -> C(F, "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

\* --- what the operations guarantee
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
ReadOnlyKept == ~cfg.wr => \A w \in worlds : w.c = cfg.init
Appended == cfg.mode = "a" /\ (\A o \in OIds : ops[o].op # "truncate") =>
                \A w \in worlds : w.un \/ Prefix(cfg.init, w.c)
LeftClosed == (\E o \in Left : ops[o].st = "returned") => \A w \in worlds : w.st = "closed" \/ w.un
Explained == worlds # {}
=============================================================================
