------------------------------ MODULE Recurring ------------------------------
(* aiomisc.RecurringCallback (aiomisc/recurring.py), PeriodicCallback and
   PeriodicService (aiomisc/periodic.py, service/periodic.py), CronCallback and
   CronService (aiomisc/cron.py, service/cron.py).

   A run i goes from one start to the following stop.

   Environment: start(i,r) answer(i,k,d) end(i,k) stop(i) adv
   System:      strat(i) run(i,same) cancelled(i) stopped(i,k)

   cfg.mode: "recurring" (the environment is the strategy), "periodic", "service"
   (fixed delay and interval), "cron" and "cronservice" (cron fields).
   r: did start() succeed.  answer k: "delay", "skip" (both with d), "stop",
   "bad", "raise".  end k: "ok", "raise", "selfcancel", or "cleanup" for a call
   that was cancelled.  Time is in ms since a midnight (UTC).                  *)
EXTENDS Clauses

VARIABLES cfg,   \* [mode, delay, interval, shield, sec, min, hour, dow (sequences), dow0]
          now, runs,
          count  \* statistics

vars == <<cfg, now, runs, count>>

Cron == cfg.mode \in {"cron", "cronservice"}
P == IF Cron THEN "R02" ELSE "R01"

InitWith(c) == /\ cfg = c /\ now = 0 /\ runs = EmptyMap
               /\ count = [calls |-> 0, done |-> 0, fail |-> 0, sum |-> 0]

\* ------------------------------------------------------------- cron fields
\* is there a matching instant in a < t <= b  (ms; instants are whole seconds)
CronIn(a, b) ==
    LET Lo == a \div 1000 + 1      \* first whole second after a
        Hi == b \div 1000
    IN Lo <= Hi /\
       \E d \in (Lo \div 86400)..(Hi \div 86400) :
          /\ ((d + cfg.dow0) % 7) \in Range(cfg.dow)
          /\ \E h \in Range(cfg.hour) :
                LET hs == d * 86400 + h * 3600
                IN /\ hs <= Hi /\ hs + 3599 >= Lo
                   /\ \E m \in Range(cfg.min) :
                        LET ms == hs + m * 60
                        IN /\ ms <= Hi /\ ms + 59 >= Lo
                           /\ \E s \in Range(cfg.sec) : ms + s >= Lo /\ ms + s <= Hi

\* st: "ask" (the strategy must be asked), "answer" (it is being asked), "sleep",
\* "skip" (sleeps, then asks), "run", "done";
\* cxl: stopped;  got: the running call was cancelled
Active(i) == runs[i].st # "done" /\ ~runs[i].cxl
AnyActive == \E i \in DOMAIN runs : Active(i)

OnTime(i) == IF Cron THEN now % 1000 = 0 /\ CronIn(now - 1, now) /\ ~CronIn(runs[i].from, now - 1)
             ELSE now = runs[i].due
Late(i) == IF Cron THEN CronIn(runs[i].from, now) ELSE now >= runs[i].due

\* what a run waits for after start (first) or after a call
Waiting(x, first) ==
    CASE cfg.mode = "recurring" -> [x EXCEPT !.st = "ask"]
      [] Cron -> [x EXCEPT !.st = "sleep", !.from = now]
      [] OTHER -> [x EXCEPT !.st = "sleep", !.due = now + (IF first THEN cfg.delay ELSE cfg.interval)]

New == [st |-> "new", due |-> 0, from |-> 0, cxl |-> FALSE, got |-> FALSE, t0 |-> 0, ret |-> FALSE, pend |-> FALSE]

Start(i, r) ==
    /\ i \notin DOMAIN runs
    /\ IF r THEN /\ C(P, "started_twice", cfg.mode = "recurring" \/ ~AnyActive)
                 /\ runs' = MapSet(runs, i, Waiting(New, TRUE))
       ELSE \* a stopped cron callback can be started once its last call has ended
            C(P, "start_refused", AnyActive \/ (Cron /\ \E j \in DOMAIN runs : ~runs[j].ret)) /\ UNCHANGED runs
    /\ UNCHANGED <<cfg, now, count>>

Answer(i, k, d) ==
    /\ runs[i].st = "answer"
    /\ runs' = [runs EXCEPT ![i] =
                 CASE k = "delay" -> [@ EXCEPT !.st = "sleep", !.due = now + Max(d, 0)]
                   [] k = "skip" -> [@ EXCEPT !.st = "skip", !.due = now + Max(d, 0)]
                   [] OTHER -> [@ EXCEPT !.st = "done"]]
    /\ UNCHANGED <<cfg, now, count>>

End(i, k) ==
    /\ runs[i].st = "run"
    /\ runs' = [runs EXCEPT ![i] = IF @.cxl THEN [@ EXCEPT !.st = "done"] ELSE Waiting(@, FALSE)]
    /\ count' = [count EXCEPT !.done = @ + (IF k = "ok" THEN 1 ELSE 0),
                              !.fail = @ + (IF k = "raise" THEN 1 ELSE 0),
                              !.sum = @ + (now - runs[i].t0)]
    /\ UNCHANGED <<cfg, now>>

\* stop the run i (0: there is none)
Stop(i) ==
    /\ runs' = IF i \in DOMAIN runs
               THEN [runs EXCEPT ![i].cxl = TRUE, ![i].st = IF @ = "run" THEN "run" ELSE "done",
                                 \* a call due right now may have been launched already
                                 ![i].pend = runs[i].st = "sleep" /\ OnTime(i)]
               ELSE runs
    /\ UNCHANGED <<cfg, now, count>>

Adv(t) == /\ t >= now /\ now' = t
          /\ runs' = [i \in DOMAIN runs |-> [runs[i] EXCEPT !.pend = FALSE]]
          /\ UNCHANGED <<cfg, count>>

\* ----------------------------------------------------------------- system
Strat(i) ==
    /\ C(P, "asked_while_not_due", runs[i].st = "ask" \/ (runs[i].st = "skip" /\ now = runs[i].due))
    /\ C(P, "asked_after_stop", ~runs[i].cxl)
    /\ runs' = [runs EXCEPT ![i].st = "answer"]
    /\ UNCHANGED <<cfg, now, count>>

Run(i, same) ==
    /\ C(P, "arguments_changed", same)
    /\ C(P, "unknown_run", i \in DOMAIN runs)
    /\ C(P, "call_after_stop", ~runs[i].cxl \/ runs[i].pend)
    /\ C(P, "calls_overlap", runs[i].st # "run")
    /\ C(P, "call_not_due", runs[i].st = "sleep" \/ runs[i].pend)
    /\ C(P, "call_at_wrong_time", runs[i].st = "sleep" => OnTime(i))
    /\ runs' = [runs EXCEPT ![i].st = "run", ![i].t0 = now, ![i].pend = FALSE]
    /\ count' = [count EXCEPT !.calls = @ + 1]
    /\ UNCHANGED <<cfg, now>>

Cancelled(i) ==
    /\ runs[i].st = "run"
    /\ C(P, "call_cancelled_by_nobody", runs[i].cxl)
    /\ C(P, "shielded_call_cancelled", ~cfg.shield)
    /\ runs' = [runs EXCEPT ![i].got = TRUE]
    /\ UNCHANGED <<cfg, now, count>>

Service == cfg.mode \in {"service", "cronservice"}
Stopped(i, k) ==
    /\ IF i \in DOMAIN runs
       THEN /\ C(P, "stopped_twice", ~runs[i].ret)
            /\ C(P, "stopped_before_call_ended", runs[i].st = "done" \/ (cfg.shield /\ runs[i].cxl))
            /\ C(P, "wrong_stop_result",
                 k = (IF Service THEN "ok" ELSE "cancelled") \/ ~runs[i].cxl)
            /\ runs' = [runs EXCEPT ![i].ret = TRUE]
       ELSE C(P, "wrong_stop_result", k = (IF Service THEN "ok" ELSE "notstarted")) /\ UNCHANGED runs
    /\ UNCHANGED <<cfg, now, count>>

\* ------------------------------------------------------------- quiescence
IdleOK ==
    \A i \in DOMAIN runs :
        /\ C(P, "strategy_not_asked", runs[i].st # "ask" /\ (runs[i].st = "skip" => now < runs[i].due))
        /\ C(P, "call_missed", runs[i].st = "sleep" => ~Late(i))
        /\ C(P, "running_call_not_cancelled", (runs[i].st = "run" /\ runs[i].cxl) => (runs[i].got \/ cfg.shield))
        /\ C(P, "stop_not_completed",
             (runs[i].cxl /\ (runs[i].st = "done" \/ cfg.shield)) => runs[i].ret)

Idle(s) ==
    /\ IdleOK
    /\ C("T01", "call_count", s.call_count = count.calls)
    /\ C("T01", "done", s.done = count.done)
    /\ C("T01", "fail", s.fail = count.fail)
    /\ C("T01", "sum_time", s.sum_time \in (count.sum - 1)..(count.sum + 1))
    /\ UNCHANGED vars

Step(ev) ==
    CASE ev.e = "start" -> Start(ev.i, ev.r)
      [] ev.e = "answer" -> Answer(ev.i, ev.k, ev.d)
      [] ev.e = "end" -> End(ev.i, ev.k)
      [] ev.e = "stop" -> Stop(ev.i)
      [] ev.e = "adv" -> Adv(ev.t)
      [] ev.e = "strat" -> Strat(ev.i)
      [] ev.e = "run" -> Run(ev.i, ev.same)
      [] ev.e = "cancelled" -> Cancelled(ev.i)
      [] ev.e = "stopped" -> Stopped(ev.i, ev.k)
      [] ev.e = "idle" -> Idle(ev.s)
      [] OTHER -> C(P, "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

\* ------------------------------------------------- properties of the design
NoCallAfterStop ==
    [][\A i \in DOMAIN runs : (runs[i].cxl /\ runs[i].st # "run" /\ ~runs[i].pend) => runs'[i].st # "run"]_vars
OneActive == cfg.mode # "recurring" => \A i, j \in DOMAIN runs : Active(i) /\ Active(j) => i = j
Counted == count.done + count.fail <= count.calls
=============================================================================
