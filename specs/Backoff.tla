------------------------------- MODULE Backoff -------------------------------
(* aiomisc.asyncbackoff, asyncretry (aiomisc/backoff.py) and timeout
   (aiomisc/timeout.py, a policy with a single attempt).

   Environment: call(c) attEnd(c,k,n,id) cancel(c) adv
   System:      att(c,same) attCancelled(c) ret(c,k,id)

   An attempt ends with k = "ok" (id identifies the value) or k = "raise", an
   exception of class n identified by id, or is cancelled by the system.      *)
EXTENDS Clauses

VARIABLES cfg,   \* [attempt, deadline, pause, tries, exc, giveup, stat]; -1 / 0: none
          now, calls,
          stats  \* what get_statistics() has to report

vars == <<cfg, now, calls, stats>>

\* exception classes of the environment: B is a subclass of A, T is TimeoutError
Sub(n) == CASE n = "A" -> {"A", "B"} [] n = "Exception" -> {"A", "B", "C", "T"} [] OTHER -> {n}
Retriable == UNION {Sub(n) : n \in Range(cfg.exc)} \cup {"T"}
GivesUp(n) == n \in Range(cfg.giveup)

InitWith(c) == /\ cfg = c /\ now = 0 /\ calls = EmptyMap
               /\ stats = [attempts |-> 0, done |-> 0, errors |-> 0, cancels |-> 0, sum |-> 0]

Inf == 1000000000
AttLimit(c) == IF cfg.attempt >= 0 THEN calls[c].attAt + cfg.attempt ELSE Inf
Deadline(c) == IF cfg.deadline >= 0 THEN calls[c].t0 + cfg.deadline ELSE Inf
MayRetry(c) == /\ calls[c].last = "raise" /\ calls[c].name \in Retriable
               /\ (cfg.tries = 0 \/ calls[c].tries < cfg.tries)
               /\ ~GivesUp(calls[c].name)

\* st: "new", "run" (an attempt runs), "end" (the last attempt has ended), "done"
Call(c) ==
    /\ c \notin DOMAIN calls
    /\ calls' = MapSet(calls, c, [st |-> "new", t0 |-> now, tries |-> 0, attAt |-> 0, endAt |-> 0,
                                  last |-> "none", name |-> "", id |-> 0,
                                  fname |-> "T", fid |-> 0, cxl |-> FALSE, stop |-> FALSE])
    /\ UNCHANGED <<cfg, now, stats>>

Cancel(c) ==
    /\ calls[c].st # "done"
    /\ calls' = [calls EXCEPT ![c].cxl = TRUE]
    /\ UNCHANGED <<cfg, now, stats>>

\* time spent for an attempt, its pause included, is accounted when both are over
Account(c) == [stats EXCEPT !.done = @ + 1, !.sum = @ + (now - calls[c].attAt)]

AttEnd(c, k, n, id) ==
    /\ calls[c].st = "run"
    /\ LET failed == k = "raise"
       IN /\ calls' = [calls EXCEPT ![c].st = "end", ![c].last = k, ![c].name = n, ![c].id = id,
                                    ![c].endAt = now,
                                    ![c].fname = IF failed THEN n ELSE @,
                                    ![c].fid = IF failed THEN id ELSE @]
          /\ stats' = IF failed /\ n \in Retriable THEN [stats EXCEPT !.errors = @ + 1] ELSE stats
    /\ UNCHANGED <<cfg, now>>

Adv(t) == /\ t >= now /\ now' = t /\ UNCHANGED <<cfg, calls, stats>>

\* ----------------------------------------------------------------- system
Att(c, same) ==
    /\ C("B01", "arguments_changed", same)
    /\ C("B01", "attempts_overlap", calls[c].st # "run")
    /\ C("B01", "attempt_after_outcome", calls[c].st # "done")
    /\ C("B02", "attempt_after_cancellation", ~calls[c].cxl \/ calls[c].tries = 0)
    /\ IF calls[c].tries = 0
       THEN C("B02", "first_attempt_late", now = calls[c].t0)
       ELSE /\ C("B01", "retry_not_allowed", MayRetry(c))
            /\ C("B02", "wrong_pause", now = calls[c].endAt + cfg.pause)
    /\ C("B02", "attempt_after_deadline", now <= Deadline(c))
    /\ calls' = [calls EXCEPT ![c].st = "run", ![c].tries = @ + 1, ![c].attAt = now]
    /\ stats' = [(IF calls[c].tries > 0 THEN Account(c) ELSE stats) EXCEPT !.attempts = @ + 1]
    /\ UNCHANGED <<cfg, now>>

\* The system cancels the attempt: it timed out (which counts as a failure with a
\* timeout), the deadline has passed or the caller was cancelled.
AttCancelled(c) ==
    /\ calls[c].st = "run"
    /\ C("B02", "attempt_cancelled_early",
         calls[c].cxl \/ now = AttLimit(c) \/ now = Deadline(c))
    /\ \/ /\ now = AttLimit(c)
          /\ calls' = [calls EXCEPT ![c].st = "end", ![c].last = "raise", ![c].name = "T", ![c].id = 0,
                                    ![c].fname = "T", ![c].fid = 0, ![c].endAt = now]
          /\ stats' = [stats EXCEPT !.errors = @ + 1]
       \/ /\ calls[c].cxl \/ now >= Deadline(c) \/ now # AttLimit(c)
          /\ calls' = [calls EXCEPT ![c].st = "end", ![c].last = "stopped", ![c].endAt = now]
          /\ stats' = [stats EXCEPT !.cancels = @ + 1]
    /\ UNCHANGED <<cfg, now>>

\* Each way a call may end
EndsOk(c, k, id) == k = "ok" /\ calls[c].last = "ok" /\ calls[c].id = id
EndsLast(c, k, n, id) == /\ k = "raise" /\ calls[c].last = "raise" /\ ~MayRetry(c)
                         /\ n = calls[c].name /\ id = calls[c].id
EndsDeadline(c, k, n, id) == /\ k = "raise" /\ now = Deadline(c)
                             /\ n = calls[c].fname /\ id = calls[c].fid
Ret(c, k, n, id) ==
    /\ C("B01", "second_outcome", calls[c].st # "done")
    /\ C("B02", "attempt_left_running", calls[c].st # "run")
    /\ IF k = "cancelled"
       THEN C("B02", "cancelled_by_nobody", calls[c].cxl)
       ELSE /\ C("B01", "wrong_outcome",
                 EndsOk(c, k, id) \/ EndsLast(c, k, n, id) \/ EndsDeadline(c, k, n, id)
                    \/ (k = "raise" /\ now < Deadline(c) /\ MayRetry(c) /\ cfg.deadline >= 0))
            /\ C("B02", "ended_before_deadline",
                 ~(k = "raise" /\ now < Deadline(c) /\ MayRetry(c)))
    /\ calls' = [calls EXCEPT ![c].st = "done"]
    /\ stats' = IF calls[c].st = "end" THEN Account(c) ELSE stats
    /\ UNCHANGED <<cfg, now>>

\* ------------------------------------------------------------- quiescence
IdleOK ==
    \A c \in DOMAIN calls :
        /\ C("B01", "no_attempt_made", calls[c].st # "new")
        /\ C("B02", "attempt_timeout_missed", calls[c].st = "run" => now < AttLimit(c))
        /\ C("B02", "deadline_missed", calls[c].st # "done" => now < Deadline(c))
        /\ C("B02", "cancellation_missed", calls[c].cxl => calls[c].st = "done")
        /\ C("B01", "no_outcome", calls[c].st = "end" => MayRetry(c))
        /\ C("B02", "no_retry_after_pause", calls[c].st = "end" => now < calls[c].endAt + cfg.pause)

Idle(s) ==
    /\ IdleOK
    /\ C("T01", "attempts", cfg.stat => s.attempts = stats.attempts)
    /\ C("T01", "errors", cfg.stat => s.errors = stats.errors)
    /\ C("T01", "cancels", cfg.stat => s.cancels = stats.cancels)
    /\ C("T01", "done", cfg.stat => s.done = stats.done)
    /\ C("T01", "sum_time", cfg.stat => s.sum \in (stats.sum - 1)..(stats.sum + 1))
    /\ UNCHANGED vars

Step(ev) ==
    CASE ev.e = "call" -> Call(ev.c)
      [] ev.e = "cancel" -> Cancel(ev.c)
      [] ev.e = "attEnd" -> AttEnd(ev.c, ev.k, ev.n, ev.id)
      [] ev.e = "adv" -> Adv(ev.t)
      [] ev.e = "att" -> Att(ev.c, ev.same)
      [] ev.e = "attCancelled" -> AttCancelled(ev.c)
      [] ev.e = "ret" -> Ret(ev.c, ev.k, ev.n, ev.id)
      [] ev.e = "idle" -> Idle(ev.s)
      [] OTHER -> C("B01", "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

\* ------------------------------------------------- properties of the design
TriesBounded == \A c \in DOMAIN calls : cfg.tries > 0 => calls[c].tries <= cfg.tries
InTime == \A c \in DOMAIN calls : calls[c].st # "done" => now <= Deadline(c)
AttemptInTime == \A c \in DOMAIN calls : calls[c].st = "run" => now <= AttLimit(c)
=============================================================================
