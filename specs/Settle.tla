------------------------------- MODULE Settle -------------------------------
(* aiomisc.select, aiomisc.cancel_tasks and aiomisc.shield: who finishes first,
   who is cancelled, and who waits for whom.

   A job is one use of one of them, over awaitables 1..n.  kinds[i] is "coro",
   "task" or "future".

   Environment: select(s,kinds,rexc,cancel,wait,tmo)   start a select; tmo: 0 or ms
                group(s,kinds)   tasks and futures exist;  ct(s)  cancel_tasks(group)
                shield(s)        call of a shielded coroutine function
                fin(s,i,k)       awaitable i ends: ok, raise or cancelled
                cancel(s)        the caller is cancelled
                adv(t)
   System:      begin(s,i) awaitable i started;  creq(s,i) it got a CancelledError
                ctdone(s) cancel_tasks returned its future
                ret(s,k,w,same)  outcome for the caller: k in ok, exc (returned
                exception), raise, none, cancelled; w: whose it is;
                same: value, flags and length are as they should be            *)
EXTENDS Clauses

VARIABLES cfg, jobs, now
vars == <<cfg, jobs, now>>

InitWith(c) == cfg = c /\ jobs = EmptyMap /\ now = 0

Due(j) == j.t = "select" /\ j.dl > 0 /\ now >= j.dl
Trig(j) == j.trig \/ Due(j)
P(j) == IF jobs[j].t = "select" THEN "S01" ELSE "S02"

Aws(kinds) == [i \in 1..Len(kinds) |-> [kind |-> kinds[i], st |-> "new", creq |-> 0, k |-> ""]]
Job(t, kinds, rexc, cancel, wait, dl, trig) ==
    [t |-> t, aw |-> Aws(kinds), rexc |-> rexc, cancel |-> cancel, wait |-> wait, dl |-> dl,
     first |-> {}, open |-> FALSE, loose |-> FALSE, trig |-> trig, sealed |-> FALSE,
     cxl |-> 0, st |-> "run"]
New(s, j) == s \notin DOMAIN jobs /\ jobs' = MapSet(jobs, s, j) /\ UNCHANGED <<cfg, now>>

Select(s, kinds, rexc, cancel, wait, tmo) ==
    New(s, Job("select", kinds, rexc, cancel, wait, IF tmo = 0 THEN 0 ELSE now + tmo, FALSE))
Group(s, kinds) == New(s, [Job("ct", kinds, FALSE, TRUE, TRUE, 0, FALSE) EXCEPT !.st = "idle"])
Shield(s) == New(s, Job("shield", <<"coro">>, FALSE, FALSE, FALSE, 0, FALSE))

Ct(s) == /\ jobs[s].st = "idle"
         /\ jobs' = [jobs EXCEPT ![s].st = "run", ![s].trig = TRUE] /\ UNCHANGED <<cfg, now>>
CtDone(s) == /\ C("S02", "plain_future_left_pending",
                  \A i \in DOMAIN jobs[s].aw : jobs[s].aw[i].kind = "future" => jobs[s].aw[i].st = "done")
             /\ UNCHANGED vars
Cancel(s) == /\ jobs[s].st = "run" /\ jobs[s].t # "ct"
             /\ jobs' = [jobs EXCEPT ![s].cxl = @ + 1, ![s].trig = IF jobs[s].t = "select" THEN TRUE ELSE @]
             /\ UNCHANGED <<cfg, now>>

Fin(s, i, k) ==
    LET j == jobs[s]
        real == k # "cancelled"
        win == j.t = "select" /\ j.st = "run" /\ real
               /\ (j.first = {} \/ (j.open /\ \E x \in j.first : j.aw[x].kind # "coro"))
        late == j.t = "select" /\ j.dl > 0 /\ now >= j.dl
    IN /\ j.aw[i].st # "done"
       /\ C("S02", "future_not_cancelled",
            (j.t = "ct" /\ j.aw[i].kind = "future" /\ j.trig) => k = "cancelled")
       /\ C("S01", "cancelled_too_early",
            (j.t = "select" /\ j.aw[i].kind = "future" /\ k = "cancelled") => Trig(j) /\ (j.cancel \/ j.cxl > 0))
       /\ jobs' = [jobs EXCEPT ![s].aw[i].st = "done", ![s].aw[i].k = k,
                        ![s].first = IF win THEN @ \cup {i} ELSE @,
                        ![s].open = IF win THEN TRUE ELSE @,
                        ![s].loose = @ \/ (j.first = {} /\ (j.trig \/ late \/ ~real)),
                        ![s].trig = IF j.t = "select" /\ j.st = "run" THEN TRUE ELSE @]
       /\ UNCHANGED <<cfg, now>>

MustWait(j) == j.t = "ct" \/ (j.t = "select" /\ ((j.cancel /\ j.wait) \/ j.cxl > 0))

Begin(s, i) ==
    /\ C(P(s), "begun_twice", jobs[s].aw[i].st = "new")
    /\ C(P(s), "begun_after_cancellation",
         ~jobs[s].sealed /\ (jobs[s].t = "ct" => ~jobs[s].trig) /\ (MustWait(jobs[s]) => jobs[s].st # "done"))
    /\ jobs' = [jobs EXCEPT ![s].aw[i].st = "run"]
    /\ UNCHANGED <<cfg, now>>

Creq(s, i) ==
    LET j == jobs[s] IN
    /\ C("S02", "shielded_function_cancelled", j.t # "shield")
    /\ C("S01", "cancelled_without_reason", j.t = "select" => Trig(j) /\ (j.cancel \/ j.cxl > 0))
    /\ C("S02", "cancelled_without_reason", j.t = "ct" => j.trig)
    /\ C("S02", "cancelled_twice", j.t = "ct" => j.aw[i].creq = 0)
    /\ C("S01", "cancelled_twice", j.t = "select" => j.aw[i].creq <= j.cxl)
    /\ C(P(s), "finished_one_cancelled", j.aw[i].st = "run")
    /\ jobs' = [jobs EXCEPT ![s].aw[i].creq = @ + 1]
    /\ UNCHANGED <<cfg, now>>

\* nothing that has begun is still running
Quiet(j) == \A i \in DOMAIN j.aw : j.aw[i].st # "run" /\ (j.aw[i].kind = "future" => j.aw[i].st = "done")

Ret(s, k, w, same) ==
    LET j == jobs[s] IN
    /\ C(P(s), "second_outcome", j.st = "run")
    /\ C(P(s), "cancellation_lost", j.cxl > 0 => k = "cancelled")
    /\ C("S01", "cancelled_for_no_reason", j.t = "select" /\ k = "cancelled" => j.cxl > 0)
    /\ C("S01", "returned_before_anything_finished", j.t = "select" => j.trig \/ (j.dl > 0 /\ now >= j.dl))
    /\ C("S01", "wrong_winner",
         j.t = "select" /\ k # "cancelled" =>
           IF k = "none" THEN j.first = {} \/ j.loose
           ELSE w \in DOMAIN j.aw /\ j.aw[w].st = "done" /\ (w \in j.first \/ j.loose))
    /\ C("S01", "wrong_kind_of_outcome",
         j.t = "select" /\ k \in {"ok", "exc", "raise"} /\ w \in DOMAIN j.aw =>
           k = (IF j.aw[w].k = "ok" THEN "ok" ELSE IF j.rexc THEN "exc" ELSE "raise"))
    /\ C("S01", "value_changed", j.t = "select" => same)
    /\ C("S02", "value_changed", j.t # "select" => same)
    /\ C(P(s), "not_waited_for", MustWait(j) => Quiet(j))
    /\ C("S02", "cancel_tasks_raised", j.t = "ct" => k = "ok")
    /\ C("S02", "shield_outcome",
         j.t = "shield" /\ j.cxl = 0 => j.aw[1].st = "done" /\ k = j.aw[1].k)
    /\ jobs' = [jobs EXCEPT ![s].st = "done"]
    /\ UNCHANGED <<cfg, now>>

IdleOK ==
    /\ \A s \in DOMAIN jobs : LET j == jobs[s] IN
         /\ C("S01", "not_cancelled",
              j.t = "select" /\ Trig(j) /\ ((j.cancel /\ j.st # "none") \/ j.cxl > 0)
                => \A i \in DOMAIN j.aw : /\ j.aw[i].st = "run" => j.aw[i].creq > 0
                                          /\ j.aw[i].kind = "future" => j.aw[i].st = "done")
         /\ C("S02", "not_cancelled",
              j.t = "ct" /\ j.trig => \A i \in DOMAIN j.aw : /\ j.aw[i].st = "run" => j.aw[i].creq > 0
                                                             /\ j.aw[i].kind = "future" => j.aw[i].st = "done")
         /\ C("S01", "never_started",
              j.t = "select" /\ ~(Trig(j) /\ (j.cancel \/ j.cxl > 0))
                => \A i \in DOMAIN j.aw : j.aw[i].kind = "coro" => j.aw[i].st # "new")
         /\ C("S01", "no_outcome", j.t = "select" /\ j.st = "run" => ~Trig(j) \/ (MustWait(j) /\ ~Quiet(j)))
         /\ C("S02", "no_outcome", j.t = "ct" /\ j.st = "run" => ~Quiet(j))
         /\ C("S02", "no_outcome", j.t = "shield" /\ j.st = "run" => j.cxl = 0 /\ j.aw[1].st # "done")
         /\ C("S02", "shielded_not_run", j.t = "shield" => j.aw[1].st # "new")
Idle == /\ IdleOK
        /\ jobs' = [s \in DOMAIN jobs |->
             [jobs[s] EXCEPT !.open = FALSE, !.trig = @ \/ Due(jobs[s]),
                             !.loose = @ \/ (Due(jobs[s]) /\ jobs[s].first = {}),
                             !.sealed = Trig(jobs[s]) /\ (jobs[s].cancel \/ jobs[s].cxl > 0)]]
        /\ UNCHANGED <<cfg, now>>
Adv(t) == /\ now' = t
          /\ C("S01", "deadline_missed", \A s \in DOMAIN jobs :
                 LET j == jobs[s] IN j.t = "select" /\ j.st = "run" /\ ~j.trig /\ j.dl > 0 => t <= j.dl)
          /\ UNCHANGED <<cfg, jobs>>

Step(ev) ==
    CASE ev.e = "select" -> Select(ev.s, ev.kinds, ev.rexc, ev.cancel, ev.wait, ev.tmo)
      [] ev.e = "group" -> Group(ev.s, ev.kinds)
      [] ev.e = "shield" -> Shield(ev.s)
      [] ev.e = "ct" -> Ct(ev.s)
      [] ev.e = "ctdone" -> CtDone(ev.s)
      [] ev.e = "cancel" -> Cancel(ev.s)
      [] ev.e = "fin" -> Fin(ev.s, ev.i, ev.k)
      [] ev.e = "begin" -> Begin(ev.s, ev.i)
      [] ev.e = "creq" -> Creq(ev.s, ev.i)
      [] ev.e = "ret" -> Ret(ev.s, ev.k, ev.w, ev.same)
      [] ev.e = "idle" -> Idle
      [] ev.e = "adv" -> Adv(ev.t)
      [] OTHER -> C("S01", "unexpected_" \o ev.e, FALSE) /\ C("S02", "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

\* a cancelled caller never leaves begun awaitables behind; shields are never pierced
Settled == \A s \in DOMAIN jobs : LET j == jobs[s] IN
             /\ (j.t = "select" /\ j.st = "done" /\ (j.cxl > 0 \/ (j.cancel /\ j.wait))) => Quiet(j)
             /\ (j.t = "ct" /\ j.st = "done") => Quiet(j)
             /\ j.t = "shield" => \A i \in DOMAIN j.aw : j.aw[i].creq = 0
=============================================================================
