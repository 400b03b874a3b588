------------------------------ MODULE Channel ------------------------------
(* aiomisc.threaded_iterable: a generator runs in a thread, its items are consumed
   by tasks of an event loop.

   Environment: iter  the iteration begins;  next(c) a task asks for an item
                gwait the generator waits for something else;  ggo it goes on
                gyield(i) it yields;  gfin(k,t) it is over: end, raise, closed
                close(w) closing is requested and awaited;  drop  the iterator is forgotten;  adv(t)
   System:      gstart(t) the generator begins, t: in another thread;  gres(i) it is resumed
                got(c,i) stopped(c) raised(c,ok)  a task gets an item, the end, the exception
                closedone(w)
                idle(n, s)  n: threads of the generator; s: the published statistics, if the iterator has a name *)
EXTENDS Clauses

VARIABLES cfg, now, last, started, y, fk, prod, deliv, errd, nexts, closed, more, cw, owed
vars == <<cfg, now, last, started, y, fk, prod, deliv, errd, nexts, closed, more, cw, owed>>
I1 == "I01"
I2 == "I02"
T == "T01"
LagMs == 1500      \* the consumer looks for items once a second at least

\* y: no, run, gate, yield, fin
InitWith(c) == /\ cfg = c /\ now = 0 /\ last = 0 /\ started = FALSE /\ y = "no" /\ fk = "" /\ prod = 0
               /\ deliv = 0 /\ errd = FALSE /\ nexts = {} /\ closed = FALSE /\ more = 2 /\ cw = {} /\ owed = FALSE

Touch == last' = now /\ UNCHANGED <<cfg, now>>
GenSame == UNCHANGED <<y, fk, prod, more>>
Iter == /\ started' = TRUE /\ Touch /\ GenSame /\ UNCHANGED <<deliv, errd, nexts, closed, cw, owed>>
Next(c) == /\ nexts' = nexts \cup {c} /\ Touch /\ GenSame /\ UNCHANGED <<started, deliv, errd, closed, cw, owed>>
Close(w) == /\ closed' = TRUE /\ cw' = cw \cup {w} /\ Touch /\ GenSame /\ UNCHANGED <<started, deliv, errd, nexts, owed>>
Drop == /\ closed' = TRUE /\ Touch /\ GenSame /\ UNCHANGED <<started, deliv, errd, nexts, cw, owed>>

GStart(t) == /\ C(I1, "started_twice", y = "no" /\ started)
             /\ C(I1, "not_in_a_thread", t)
             /\ C(I2, "started_after_close", more > 0)
             /\ y' = "run" /\ Touch /\ UNCHANGED <<started, fk, prod, deliv, errd, nexts, closed, more, cw, owed>>
GWait == y = "run" /\ y' = "gate" /\ Touch /\ UNCHANGED <<started, fk, prod, deliv, errd, nexts, closed, more, cw, owed>>
GGo == y = "gate" /\ y' = "run" /\ Touch /\ UNCHANGED <<started, fk, prod, deliv, errd, nexts, closed, more, cw, owed>>
\* an item taken by a task might be not seen yet
Ahead == prod - deliv
GYield(i) == /\ y = "run" /\ i = prod + 1
             /\ C(I1, "too_far_ahead", cfg.m > 0 => Ahead + 1 <= cfg.m + 1 + Cardinality(nexts))
             /\ y' = "yield" /\ prod' = i
             /\ Touch /\ UNCHANGED <<started, fk, deliv, errd, nexts, closed, more, cw, owed>>
GRes(i) == /\ C(I1, "resumed_strangely", y = "yield" /\ i = prod)
           /\ C(I2, "resumed_after_close", more > 0)
           /\ y' = "run" /\ more' = IF more = 1 THEN 0 ELSE more
           /\ Touch /\ UNCHANGED <<started, fk, prod, deliv, errd, nexts, closed, cw, owed>>
GFin(k, t) == /\ y \in {"run", "gate", "yield"}
              /\ C(I1, "item_refused", k = "closed" => closed)
              /\ C(I2, "closed_in_another_thread", t)
              /\ y' = "fin" /\ fk' = k
              /\ Touch /\ UNCHANGED <<started, prod, deliv, errd, nexts, closed, more, cw, owed>>

Got(c, i) == /\ C(I1, "not_asked", c \in nexts)
             /\ C(I1, "wrong_item", i = deliv + 1 /\ i <= prod)
             /\ nexts' = nexts \ {c} /\ deliv' = deliv + 1
             /\ Touch /\ GenSame /\ UNCHANGED <<started, errd, closed, cw, owed>>
AllGiven == y = "fin" /\ deliv = prod
\* another task has taken the exception but did not raise it yet
Taken == AllGiven /\ fk = "raise" /\ Cardinality(nexts) > 1
Stopped(c) == /\ C(I1, "not_asked", c \in nexts)
              /\ C(I1, "ended_too_early", closed \/ errd \/ (AllGiven /\ fk = "end") \/ Taken)
              /\ nexts' = nexts \ {c}
              /\ owed' = (owed \/ (Taken /\ ~closed /\ ~errd))
              /\ Touch /\ GenSame /\ UNCHANGED <<started, deliv, errd, closed, cw>>
Raised(c, ok) == /\ C(I1, "not_asked", c \in nexts)
                 /\ C(I1, "wrong_exception", ok /\ AllGiven /\ fk = "raise" /\ ~errd)
                 /\ nexts' = nexts \ {c} /\ errd' = TRUE
                 /\ Touch /\ GenSame /\ UNCHANGED <<started, deliv, closed, cw, owed>>
CloseDone(w) == /\ C(I2, "close_returned_early", y \in {"no", "fin"} \/ (~cfg.gen /\ y # "gate"))
                /\ cw' = cw \ {w}
                /\ Touch /\ GenSame /\ UNCHANGED <<started, deliv, errd, nexts, closed, owed>>

Late == now >= last + LagMs
\* the generator cannot be interrupted while it waits for something else
Busy == y = "gate"
IdleOK ==
    /\ C(I1, "producer_stalled", ~closed /\ started =>
            /\ y \notin {"no", "run"}
            /\ y = "yield" => cfg.m > 0 /\ Ahead >= cfg.m)
    /\ C(I1, "too_far_ahead", cfg.m > 0 => Ahead <= cfg.m + 1)
    /\ C(I1, "item_not_delivered", Late /\ nexts # {} /\ ~closed => deliv = prod)
    /\ C(I1, "exception_lost", Late /\ owed => errd \/ closed)
    /\ C(I1, "end_not_delivered", Late /\ nexts # {} => y # "fin")
    /\ C(I2, "iteration_hangs_after_close", Late /\ closed /\ started /\ ~Busy => nexts = {})
    /\ C(I2, "close_hangs", Late /\ closed /\ ~Busy => cw = {})
    /\ C(I2, "generator_not_closed", Late /\ closed /\ ~Busy /\ cfg.gen => y \in {"no", "fin"})
\* n: threads of the producer which are alive
ThreadsOK(n) == C(I2, "thread_left", Late /\ (closed \/ AllGiven) /\ ~Busy => n = 0)
\* the statistics are the history; an item is counted when it has left the generator
StatOK(n, s) ==
    /\ C(T, "started", s.started = n)
    /\ C(T, "queue_size", s.queue_size = cfg.m)
    /\ C(T, "yielded", s.yielded = deliv)
    /\ C(T, "queue_length", s.queue_length = s.enqueued - s.yielded)
    /\ C(T, "enqueued", s.enqueued = prod \/ (s.enqueued = prod - 1 /\ (y = "yield" \/ closed)))
Idle(n, s) == /\ IdleOK /\ ThreadsOK(n) /\ (cfg.stat => StatOK(n, s))
              /\ more' = IF closed THEN (IF Busy /\ more > 0 THEN 1 ELSE 0) ELSE more
              /\ UNCHANGED <<cfg, now, last, started, y, fk, prod, deliv, errd, nexts, closed, cw, owed>>
Adv(t) == now' = t /\ UNCHANGED <<cfg, last, started, y, fk, prod, deliv, errd, nexts, closed, more, cw, owed>>

Step(ev) ==
    CASE ev.e = "iter" -> Iter
      [] ev.e = "next" -> Next(ev.c)
      [] ev.e = "close" -> Close(ev.w)
      [] ev.e = "drop" -> Drop
      [] ev.e = "gstart" -> GStart(ev.t)
      [] ev.e = "gwait" -> GWait
      [] ev.e = "ggo" -> GGo
      [] ev.e = "gyield" -> GYield(ev.i)
      [] ev.e = "gres" -> GRes(ev.i)
      [] ev.e = "gfin" -> GFin(ev.k, ev.t)
      [] ev.e = "got" -> Got(ev.c, ev.i)
      [] ev.e = "stopped" -> Stopped(ev.c)
      [] ev.e = "raised" /\ "c" \in DOMAIN ev -> Raised(ev.c, ev.ok)
      [] ev.e = "closedone" -> CloseDone(ev.w)
      [] ev.e = "idle" -> Idle(ev.n, ev.s)
      [] ev.e = "adv" -> Adv(ev.t)
      [] OTHER -> C(I1, "unexpected_" \o ev.e, FALSE) /\ C(I2, "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

\* what the clauses are meant to guarantee
InOrder == deliv <= prod
Bounded == cfg.m > 0 => Ahead <= cfg.m + 1 + Cardinality(nexts)
ErrLast == errd => deliv = prod
=============================================================================
