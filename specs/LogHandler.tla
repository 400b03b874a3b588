----------------------------- MODULE LogHandler -----------------------------
(* aiomisc.log.ThreadedHandler: records are queued and passed to the target
   handler by a thread.

   Environment: emit(r)  a thread hands over record r
                tend(r)  the target handler is done with r (it might wait for something else: tbusy)
                close(c) the handler is being closed;  flush;  adv(t)
   System:      emitted(r)  the emitter goes on
                deliver(r)  the target handler gets r;  closedone(c)   *)
EXTENDS Clauses

VARIABLES cfg, now, last, recs, cur, busy, closing, closed
vars == <<cfg, now, last, recs, cur, busy, closing, closed>>
L == "L01"
T == "T01"
LagMs == 1000

\* recs[r]: st: emitting, accepted, over; before: records accepted earlier which are to be passed first;
\*          u: greatest number of other records waiting meanwhile; opt: may be dropped
InitWith(c) == /\ cfg = c /\ now = 0 /\ last = 0 /\ recs = EmptyMap /\ cur = 0 /\ busy = FALSE
               /\ closing = {} /\ closed = FALSE
Touch == last' = now /\ UNCHANGED <<cfg, now>>
RIds == DOMAIN recs
Waiting == {r \in RIds : recs[r].st \in {"emitting", "accepted"}}
Emitting == {r \in RIds : recs[r].st = "emitting"}
Accepted == {r \in RIds : recs[r].st = "accepted"}

Emit(r) == LET u == Cardinality(Waiting) IN
           /\ recs' = MapSet([x \in RIds |-> IF x \in Emitting THEN [recs[x] EXCEPT !.u = Max(@, u)] ELSE recs[x]], r,
                             [st |-> "emitting", del |-> FALSE, before |-> {x \in Accepted : ~recs[x].opt}, u |-> u, opt |-> closed])
           /\ Touch /\ UNCHANGED <<cur, busy, closing, closed>>
MayDrop(r) == recs[r].opt \/ (cfg.b /\ cfg.m > 0 /\ recs[r].u >= cfg.m)
Emitted(r) == /\ C(L, "emit_returned_early", (~cfg.b /\ cfg.m > 0 /\ ~closed) => Cardinality(Accepted) <= cfg.m + 1)
              /\ recs' = [recs EXCEPT ![r].st = IF recs[r].del THEN "over" ELSE "accepted", ![r].opt = MayDrop(r)]
              /\ Touch /\ UNCHANGED <<cur, busy, closing, closed>>
Deliver(r, t) == /\ C(L, "unknown_record", r \in RIds) /\ r \in RIds
                 /\ C(L, "delivered_twice", ~recs[r].del)
                 /\ C(L, "wrong_order", \A x \in recs[r].before : recs[x].st = "over" \/ recs[x].opt)
                 /\ C(L, "overlapping_delivery", cur = 0)
                 /\ C(L, "delivered_by_emitter", t)
                 /\ recs' = [recs EXCEPT ![r].st = IF @ = "accepted" THEN "over" ELSE @, ![r].del = TRUE]
                 /\ cur' = r /\ Touch /\ UNCHANGED <<busy, closing, closed>>
TBusy(r) == busy' = TRUE /\ Touch /\ UNCHANGED <<recs, cur, closing, closed>>
TEnd(r) == cur' = 0 /\ busy' = FALSE /\ Touch /\ UNCHANGED <<recs, closing, closed>>
\* what is emitted meanwhile or later might be dropped
Close(c) == /\ closing' = closing \cup {c} /\ closed' = TRUE
            /\ recs' = [r \in RIds |-> IF r \in Emitting THEN [recs[r] EXCEPT !.opt = TRUE] ELSE recs[r]]
            /\ Touch /\ UNCHANGED <<cur, busy>>
Owed == {r \in Accepted : ~recs[r].opt}
CloseDone(c) == /\ C(L, "closed_before_flushed", Owed = {} \/ busy \/ Cardinality(closing) > 1)
                /\ closing' = closing \ {c} /\ Touch /\ UNCHANGED <<recs, cur, busy, closed>>
Flush == Touch /\ UNCHANGED <<recs, cur, busy, closing, closed>>

Late == now >= last + LagMs
IdleOK ==
    /\ C(L, "emit_hangs", cfg.b /\ closing = {} => Emitting = {})
    /\ C(L, "emit_hangs", Late /\ ~busy => Emitting = {})
    /\ C(L, "emit_hangs", cfg.m > 0 /\ busy /\ Late /\ ~closed => \/ Emitting = {}
                                                       \/ Cardinality(Accepted) >= cfg.m)
    /\ C(L, "record_not_delivered", Late /\ ~busy => Owed = {})
    /\ C(L, "close_hangs", Late /\ ~busy => closing = {})
Threads(n, st) ==
    /\ C(L, "thread_left", Late /\ closed /\ ~busy => n = 0)
    /\ C(L, "thread_died", ~closed => n = 1)
    /\ C(T, "threads_metric", st = n)
Idle(n, st) == IdleOK /\ Threads(n, st) /\ UNCHANGED vars
Adv(t) == now' = t /\ UNCHANGED <<cfg, last, recs, cur, busy, closing, closed>>

Step(ev) ==
    CASE ev.e = "emit" -> Emit(ev.r)
      [] ev.e = "emitted" -> Emitted(ev.r)
      [] ev.e = "deliver" -> Deliver(ev.r, ev.t)
      [] ev.e = "tbusy" -> TBusy(ev.r)
      [] ev.e = "tend" -> TEnd(ev.r)
      [] ev.e = "close" -> Close(ev.c)
      [] ev.e = "closedone" -> CloseDone(ev.c)
      [] ev.e = "flush" -> Flush
      [] ev.e = "idle" -> Idle(ev.n, ev.st)
      [] ev.e = "adv" -> Adv(ev.t)
      [] OTHER -> C(L, "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

\* what the clauses are meant to guarantee
OneAtATime == cur # 0 => recs[cur].del
NothingLost == \A r \in RIds : recs[r].st = "over" => recs[r].del
=============================================================================
