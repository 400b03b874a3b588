---------------------------- MODULE ProcessPool ----------------------------
(* A pool of processes (aiomisc.process_pool.ProcessPoolExecutor).

   Environment: submit(j,k)  job k: ok, exc, unpick (its outcome cannot be sent), badarg (it cannot
                             be sent itself), die (its process ends)
                release(j)  the job may end;  cancel(j) its caller stops waiting for it or cancels it
                shutdown(w,c) w: waits, c: jobs not begun are cancelled;  drop: nobody uses the pool any more
   System:      accepted(j), refused(j)   submit returned or raised
                res(j,k)  the caller gets: ok, exc, err (could not be sent), broken, cancelled, or wrong_...
                shut      shutdown returned
                stats(sub,done,ok,err,tm)  taken when all jobs are over; tm: the sum of times is plausible
                gone(n,r) n processes are left, r: how often each job ran                      *)
EXTENDS Clauses

VARIABLES cfg, jobs, pool
vars == <<cfg, jobs, pool>>
Q == "Q01"
\* of the published statistics
CS(n, b) == C(Q, n, b) /\ C("T01", n, b)
JIds == DOMAIN jobs

InitWith(c) == cfg = c /\ jobs = EmptyMap /\ pool = [closed |-> FALSE, asked |-> FALSE, wait |-> FALSE, broken |-> FALSE, cf |-> FALSE, shut |-> FALSE]

Submit(j, k) == jobs' = MapSet(jobs, j, [k |-> k, st |-> "asked", rel |-> FALSE, canc |-> FALSE, out |-> ""]) /\ UNCHANGED <<cfg, pool>>
Accepted(j) == /\ C(Q, "accepted_after_shutdown", ~pool.closed)
               /\ jobs' = [jobs EXCEPT ![j].st = "in"] /\ UNCHANGED <<cfg, pool>>
Refused(j) == /\ C(Q, "refused", pool.closed \/ pool.broken)
              /\ jobs' = [jobs EXCEPT ![j].st = "refused"] /\ UNCHANGED <<cfg, pool>>
Release(j) == /\ jobs' = [jobs EXCEPT ![j].rel = TRUE]
              /\ pool' = IF jobs[j].k = "die" THEN [pool EXCEPT !.broken = TRUE] ELSE pool
              /\ UNCHANGED cfg
Cancel(j) == jobs' = [jobs EXCEPT ![j].canc = TRUE] /\ UNCHANGED <<cfg, pool>>
Shutdown(w, c) == /\ pool' = [pool EXCEPT !.closed = TRUE, !.wait = w, !.asked = TRUE, !.cf = @ \/ c]
                  /\ UNCHANGED <<cfg, jobs>>
Drop == pool' = [pool EXCEPT !.closed = TRUE] /\ UNCHANGED <<cfg, jobs>>

Own(k) == CASE k = "ok" -> "ok" [] k = "exc" -> "exc" [] k = "die" -> "broken" [] OTHER -> "err"
\* a job which cannot be sent fails without being released
Ends(j) == jobs[j].rel \/ jobs[j].k = "badarg"
Outs(j) == (IF Ends(j) THEN {Own(jobs[j].k)} ELSE {}) \cup
           (IF pool.broken THEN {"broken"} ELSE {}) \cup
           (IF jobs[j].canc \/ pool.cf THEN {"cancelled"} ELSE {})
Res(j, k) == /\ C(Q, "not_submitted", jobs[j].st = "in")
             /\ C(Q, "outcome_twice", jobs[j].out = "")
             /\ C(Q, "wrong_outcome", k \in Outs(j))
             /\ jobs' = [jobs EXCEPT ![j].out = k] /\ UNCHANGED <<cfg, pool>>
Shut == /\ C(Q, "shut_down_too_early", pool.wait => \A j \in JIds : jobs[j].st = "in" => (Ends(j) \/ jobs[j].canc \/ pool.broken \/ pool.cf))
        /\ pool' = [pool EXCEPT !.shut = TRUE] /\ UNCHANGED <<cfg, jobs>>

Sub == {j \in JIds : jobs[j].st = "in"}
Over == {j \in Sub : jobs[j].out # ""}
OK == {j \in Sub : jobs[j].out = "ok"}
\* they may have ended well although their callers were gone
MayOK == OK \cup {j \in Sub : jobs[j].canc /\ jobs[j].out = "cancelled" /\ jobs[j].k = "ok"}
Stats(sub, done, ok, err, n, tm) ==
    /\ C(Q, "outcome_lost", Over = Sub)
    /\ CS("submitted_wrong", sub = Cardinality(Sub))
    /\ CS("done_wrong", done = Cardinality(Sub))
    /\ CS("success_wrong", ok \in Cardinality(OK)..Cardinality(MayOK))
    /\ CS("done_is_not_the_sum", ok + err = done)
    /\ CS("processes_wrong", n = cfg.n)
    /\ CS("time_wrong", tm)
    /\ UNCHANGED vars
Gone(n, r) ==
    /\ C(Q, "not_shut_down", pool.closed => n = 0)
    /\ C(Q, "shutdown_hangs", pool.asked => pool.shut)
    /\ C(Q, "ran_twice", \A i \in DOMAIN r : r[i][2] <= 1)
    /\ C(Q, "did_not_run", \A j \in JIds : jobs[j].out \in {"ok", "exc"} => \E i \in DOMAIN r : r[i] = <<j, 1>>)
    /\ C(Q, "ran_although_refused", \A i \in DOMAIN r : r[i][2] = 0 \/ jobs[r[i][1]].st = "in")
    /\ UNCHANGED vars

Step(ev) ==
    CASE ev.e = "submit" -> Submit(ev.j, ev.k)
      [] ev.e = "accepted" -> Accepted(ev.j)
      [] ev.e = "refused" -> Refused(ev.j)
      [] ev.e = "release" -> Release(ev.j)
      [] ev.e = "cancel" -> Cancel(ev.j)
      [] ev.e = "shutdown" -> Shutdown(ev.w, ev.c)
      [] ev.e = "drop" -> Drop
      [] ev.e = "res" -> Res(ev.j, ev.k)
      [] ev.e = "shut" -> Shut
      [] ev.e = "stats" -> Stats(ev.sub, ev.done, ev.ok, ev.err, ev.n, ev.tm)
      [] ev.e = "gone" -> Gone(ev.n, ev.r)
      [] OTHER -> C(Q, "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

\* what the clauses are meant to guarantee
OwnOutcome == \A j \in JIds : jobs[j].out \in {"", "broken", "cancelled", Own(jobs[j].k)}
Causes == \A j \in JIds : /\ jobs[j].out = "broken" => pool.broken
                          /\ jobs[j].out = "cancelled" => jobs[j].canc \/ pool.cf
=============================================================================
