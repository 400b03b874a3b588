----------------------------- MODULE ThreadPool -----------------------------
(* aiomisc.ThreadPoolExecutor: jobs submitted from event loops, run by threads.

   Environment: submit(j,l) a job is submitted from loop l;  jend(j,k) its function ends: ok, exc
                cancel(j) the caller's future is cancelled;  lclose(l) a loop is closed
                shutdown(w,loop) shutdown(wait=w) is called, on the loop's thread or not;  adv(t)
   System:      accepted(j) refused(j) submit returns, raises
                jbegin(j,t) the function is called, t: in a thread of the pool
                res(j,k,t) the future is done: ok, exc, closed, cancelled; t: on its loop's thread
                shutdowned(n) shutdown returns, with n threads alive
                idle(n, s)  quiescence: n threads are alive, s: the statistics of the pool  *)
EXTENDS Clauses

VARIABLES cfg, now, jobs, closedl, down
vars == <<cfg, now, jobs, closedl, down>>
H1 == "H01"
H2 == "H02"
T == "T01"
GraceMs == 10000      \* waiting for the threads is limited
PollMs == 100

InitWith(c) == /\ cfg = c /\ now = 0 /\ jobs = EmptyMap /\ closedl = {}
               /\ down = [st |-> "no", w |-> FALSE, loop |-> FALSE, t |-> 0, settled |-> FALSE, cut |-> FALSE, free |-> 0]

In(st) == {j \in DOMAIN jobs : jobs[j].st = st}
RunningJobs == In("run")
Open(j) == jobs[j].l \notin closedl
\* jobs nobody waits for any more
Dropped(j) == jobs[j].canc > 0 \/ ~Open(j)
\* only loop 1 runs
Served(j) == jobs[j].l = 1

Submit(j, l) == /\ j \notin DOMAIN jobs
                /\ jobs' = MapSet(jobs, j, [l |-> l, st |-> "queued", k |-> "", beg |-> 0, took |-> 0, canc |-> 0, out |-> "", in |-> FALSE, sub |-> down.st])
                /\ UNCHANGED <<cfg, now, closedl, down>>
Accepted(j) == /\ C(H2, "accepted_after_shutdown", jobs[j].sub # "over")
               /\ C(H1, "accepted_twice", ~jobs[j].in)
               /\ jobs' = [jobs EXCEPT ![j].in = TRUE]
               /\ UNCHANGED <<cfg, now, closedl, down>>
Refused(j) == /\ C(H1, "refused", down.st # "no")
              /\ C(H1, "refused_but_run", jobs[j].st = "queued")
              /\ jobs' = [jobs EXCEPT ![j].st = "refused"]
              /\ UNCHANGED <<cfg, now, closedl, down>>
JBegin(j, t) == /\ C(H1, "run_twice", jobs[j].st = "queued")
                /\ C(H1, "not_in_a_thread_of_the_pool", t)
                /\ C(H1, "cancelled_job_started", jobs[j].canc < 2)
                /\ C(H1, "too_many_at_once", Cardinality(RunningJobs) < cfg.max)
                /\ C(H2, "started_after_shutdown", ~down.settled /\ jobs[j].sub # "over" /\ ~(down.st = "over" /\ down.w /\ ~down.cut))
                /\ jobs' = [jobs EXCEPT ![j].st = "run", ![j].beg = IF cfg.stat THEN now ELSE 0]
                /\ UNCHANGED <<cfg, now, closedl, down>>
JEnd(j, k) == /\ jobs[j].st = "run"
              /\ jobs' = [jobs EXCEPT ![j].st = "done", ![j].k = k, ![j].took = IF cfg.stat THEN now - jobs[j].beg ELSE 0]
              /\ down' = [down EXCEPT !.free = now]
              /\ UNCHANGED <<cfg, now, closedl>>
Cancel(j) == /\ jobs[j].out = "" /\ jobs[j].canc = 0
             /\ jobs' = [jobs EXCEPT ![j].canc = 1]
             /\ UNCHANGED <<cfg, now, closedl, down>>
Res(j, k, t) == /\ C(H1, "second_outcome", jobs[j].out = "")
                /\ C(H1, "not_on_the_loop", t)
                /\ C(H1, "wrong_outcome", CASE k = "cancelled" -> jobs[j].canc > 0
                                            [] k = "closed" -> jobs[j].canc = 0 /\ down.st # "no"
                                            [] OTHER -> jobs[j].canc = 0 /\ jobs[j].st = "done" /\ jobs[j].k = k)
                /\ jobs' = [jobs EXCEPT ![j].out = k]
                /\ UNCHANGED <<cfg, now, closedl, down>>
LClose(l) == closedl' = closedl \cup {l} /\ UNCHANGED <<cfg, now, jobs, down>>
Shutdown(w, loop) == /\ down.st = "no"
                     /\ down' = [st |-> "begun", w |-> w, loop |-> loop, t |-> now, settled |-> FALSE, cut |-> FALSE, free |-> now]
                     /\ UNCHANGED <<cfg, now, jobs, closedl>>
Shutdowned(n) == /\ C(H2, "returned_too_early", down.w => RunningJobs = {} \/ now >= down.t + GraceMs)
                 /\ down.st = "begun"
                 /\ down' = [down EXCEPT !.st = "over", !.cut = now >= down.t + GraceMs]
                 /\ UNCHANGED <<cfg, now, jobs, closedl>>

\* the loop's thread is waiting inside shutdown()
Blocked == down.st = "begun" /\ down.loop
Waiting == {j \in In("queued") : jobs[j].in /\ ~Dropped(j)}
IdleOK ==
    /\ C(H1, "job_not_started", down.st = "no" /\ Waiting # {} => Cardinality(RunningJobs) >= cfg.max)
    /\ C(H1, "outcome_not_delivered", \A j \in In("done") : Dropped(j) \/ Blocked \/ ~Served(j) \/ jobs[j].out # "")
    /\ C(H2, "job_left_pending", down.st # "no" => \A j \in Waiting : Blocked \/ ~Served(j) \/ jobs[j].out # "")
    /\ C(H2, "shutdown_hangs", down.st = "begun" =>
            /\ down.w
            /\ now < down.t + GraceMs + PollMs
            /\ RunningJobs = {} => now < down.free + PollMs)
LiveOK(n) == C(H2, "threads_left", down.st # "no" => n <= Cardinality(RunningJobs))
\* the statistics are the history
Ended(ks) == {j \in In("done") : jobs[j].k \in ks}
Took == SumF([j \in In("done") |-> jobs[j].took], In("done"))
StatOK(n, s) ==
    /\ C(T, "submitted", s.submitted = Cardinality({j \in DOMAIN jobs : jobs[j].in}))
    /\ C(T, "done", s.done = Cardinality(In("done")))
    /\ C(T, "success", s.success = Cardinality(Ended({"ok"})))
    /\ C(T, "error", s.error = Cardinality(Ended({"exc"})))
    /\ C(T, "threads", s.threads = n)
    /\ C(T, "sum_time", LET d == Cardinality(In("done")) + 1 IN s.sum_time \in (Took - d)..(Took + d))
Idle(n, s) == /\ IdleOK /\ LiveOK(n) /\ (cfg.stat => StatOK(n, s))
              /\ jobs' = [j \in DOMAIN jobs |-> IF jobs[j].canc = 1 THEN [jobs[j] EXCEPT !.canc = 2] ELSE jobs[j]]
              /\ down' = [down EXCEPT !.settled = down.st # "no"]
              /\ UNCHANGED <<cfg, now, closedl>>
Adv(t) == now' = t /\ UNCHANGED <<cfg, jobs, closedl, down>>

Step(ev) ==
    CASE ev.e = "submit" -> Submit(ev.j, ev.l)
      [] ev.e = "accepted" -> Accepted(ev.j)
      [] ev.e = "refused" -> Refused(ev.j)
      [] ev.e = "jbegin" -> JBegin(ev.j, ev.t)
      [] ev.e = "jend" -> JEnd(ev.j, ev.k)
      [] ev.e = "cancel" -> Cancel(ev.j)
      [] ev.e = "res" -> Res(ev.j, ev.k, ev.t)
      [] ev.e = "lclose" -> LClose(ev.l)
      [] ev.e = "shutdown" -> Shutdown(ev.w, ev.loop)
      [] ev.e = "shutdowned" -> Shutdowned(ev.n)
      [] ev.e = "idle" -> Idle(ev.n, ev.s)
      [] ev.e = "adv" -> Adv(ev.t)
      [] OTHER -> C(H1, "unexpected_" \o ev.e, FALSE) /\ C(H2, "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

\* what the clauses are meant to guarantee
WithinSize == Cardinality(RunningJobs) <= cfg.max
OwnOutcome == \A j \in DOMAIN jobs : jobs[j].out \in {"ok", "exc"} => jobs[j].st = "done" /\ jobs[j].k = jobs[j].out
EachEndsOnce == Cardinality(Ended({"ok"})) + Cardinality(Ended({"exc"})) = Cardinality(In("done"))
CancelledNeverStarts == \A j \in DOMAIN jobs : jobs[j].out = "closed" => down.st # "no"
=============================================================================
