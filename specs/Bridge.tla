------------------------------- MODULE Bridge -------------------------------
(* Functions called in threads by a loop (threaded, threaded_separate,
   run_in_new_thread, run_in_executor) and coroutines awaited by threads
   (wait_coroutine, sync_wait_coroutine, sync_await).

   Environment: call(j,m,v)  a task calls function j with context value v; m = "nr": no outcome is wanted
                cancel(j)  that task is cancelled;  jend(j,k)  the function ends: ok, exc, stop, cancelled
                wait(w,j)  thread j waits for coroutine w;  cend(w,k) the coroutine ends
                cancelall  the tasks of all coroutines are cancelled
   System:      jstart(j,t,v,a)  t: in another thread, v: context value seen, a: arguments are right
                res(j,k,t)  the caller gets its outcome, t: in the loop's thread
                cstart(w,t) the coroutine begins, t: in the loop's thread
                wret(w,k,s) the thread gets the outcome of the coroutine, s: in that thread   *)
EXTENDS Clauses

VARIABLES cfg, jobs, waits
vars == <<cfg, jobs, waits>>
Y == "Y01"
JIds == DOMAIN jobs
WIds == DOMAIN waits

InitWith(c) == cfg = c /\ jobs = EmptyMap /\ waits = EmptyMap

Call(j, m, v) == /\ jobs' = MapSet(jobs, j, [m |-> m, v |-> v, st |-> "called", k |-> "", out |-> "", canc |-> FALSE])
                 /\ UNCHANGED <<cfg, waits>>
Cancel(j) == /\ jobs' = [jobs EXCEPT ![j].canc = TRUE] /\ UNCHANGED <<cfg, waits>>
JStart(j, t, v, a, s) ==
    /\ C(Y, "not_called", j \in JIds) /\ j \in JIds
    /\ C(Y, "ran_twice", jobs[j].st = "called")
    /\ C(Y, "not_in_a_thread", t)
    /\ C(Y, "wrong_context", v = jobs[j].v)
    /\ C(Y, "wrong_arguments", a)
    /\ C("T01", "wrong_statistics", s = IF jobs[j].m = "new" THEN <<1, 1, 0, 0, 0>> ELSE <<>>)
    /\ jobs' = [jobs EXCEPT ![j].st = "running"] /\ UNCHANGED <<cfg, waits>>
JEnd(j, k) == /\ jobs' = [jobs EXCEPT ![j].st = "ended", ![j].k = k] /\ UNCHANGED <<cfg, waits>>
Res(j, k, t) ==
    /\ C(Y, "outcome_twice", jobs[j].out = "")
    /\ C(Y, "wrong_outcome", \/ jobs[j].st = "ended" /\ k = jobs[j].k /\ jobs[j].m # "nr"
                             \/ jobs[j].canc /\ k = "cancelled")
    /\ C(Y, "outcome_in_wrong_thread", t)
    /\ jobs' = [jobs EXCEPT ![j].out = k] /\ UNCHANGED <<cfg, waits>>

Wait(w, j) == /\ waits' = MapSet(waits, w, [j |-> j, st |-> "asked", k |-> "", ret |-> "", canc |-> FALSE])
              /\ UNCHANGED <<cfg, jobs>>
CancelAll == /\ waits' = [w \in WIds |-> [waits[w] EXCEPT !.canc = TRUE]] /\ UNCHANGED <<cfg, jobs>>
CStart(w, t) == /\ C(Y, "coroutine_not_asked", w \in WIds) /\ w \in WIds
                /\ C(Y, "coroutine_twice", waits[w].st = "asked")
                /\ C(Y, "coroutine_not_in_loop", t)
                /\ waits' = [waits EXCEPT ![w].st = "running"] /\ UNCHANGED <<cfg, jobs>>
CEnd(w, k) == /\ waits' = [waits EXCEPT ![w].st = "ended", ![w].k = k] /\ UNCHANGED <<cfg, jobs>>
WRet(w, k, s) ==
    /\ C(Y, "returned_twice", waits[w].ret = "")
    /\ C(Y, "wrong_result", \/ waits[w].st = "ended" /\ k = waits[w].k
                            \/ waits[w].st = "asked" /\ waits[w].canc /\ k = "cancelled")
    /\ C(Y, "returned_in_wrong_thread", s)
    /\ waits' = [waits EXCEPT ![w].ret = k, ![w].st = "over"] /\ UNCHANGED <<cfg, jobs>>

IdleOK ==
    /\ C(Y, "not_started", \A j \in JIds : jobs[j].st = "called" => jobs[j].canc)
    /\ C(Y, "outcome_lost", \A j \in JIds : jobs[j].st = "ended" /\ jobs[j].m # "nr" => jobs[j].out # "")
    /\ C(Y, "cancel_ignored", \A j \in JIds : jobs[j].canc => jobs[j].out # "")
    /\ C(Y, "coroutine_not_started", \A w \in WIds : waits[w].st # "asked")
    /\ C(Y, "wait_hangs", \A w \in WIds : waits[w].st # "ended")
Idle == IdleOK /\ UNCHANGED vars

Step(ev) ==
    CASE ev.e = "call" -> Call(ev.j, ev.m, ev.v)
      [] ev.e = "cancel" -> Cancel(ev.j)
      [] ev.e = "jstart" -> JStart(ev.j, ev.t, ev.v, ev.a, ev.s)
      [] ev.e = "jend" -> JEnd(ev.j, ev.k)
      [] ev.e = "res" -> Res(ev.j, ev.k, ev.t)
      [] ev.e = "wait" -> Wait(ev.w, ev.j)
      [] ev.e = "cancelall" -> CancelAll
      [] ev.e = "cstart" -> CStart(ev.w, ev.t)
      [] ev.e = "cend" -> CEnd(ev.w, ev.k)
      [] ev.e = "wret" -> WRet(ev.w, ev.k, ev.s)
      [] ev.e = "idle" -> Idle
      [] ev.e = "adv" -> UNCHANGED vars
      [] OTHER -> C(Y, "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

\* what the clauses are meant to guarantee
OutcomeTrue == \A j \in JIds : jobs[j].out \in {"", jobs[j].k} \/ (jobs[j].canc /\ jobs[j].out = "cancelled")
RetTrue == \A w \in WIds : waits[w].ret # "" => (waits[w].ret = waits[w].k \/ (waits[w].canc /\ waits[w].k = ""))
=============================================================================
