---------------------------- MODULE Workforce ----------------------------
(* A worker pool (aiomisc.worker_pool) with its real processes: the supervisor, which runs the initializer and
   replaces workers which ended, and the workers themselves (aiomisc_worker).

   Environment: call(c,k)   a caller waits for a call; k: ok, exc, err (its outcome cannot be sent), die (ends its process)
                release(c)  the function may end;  cancel(c) its caller is cancelled
                kill(p)     the worker process p is killed
                close
   System:      began(c,p)  the function began in the process p
                ret(c,k)    the caller gets: ok, exc, err, lost, cancelled, init (the initializer failed), closed,
                            or wrong_...
                closed      close() returned
                idle        nothing happened for a while
                gone(n)     n processes are left a while after everything was closed *)
EXTENDS Clauses

VARIABLES cfg, calls, pool
vars == <<cfg, calls, pool>>
CIds == DOMAIN calls
W1 == "W01"
W2 == "W02"

InitWith(c) == /\ cfg = c /\ calls = EmptyMap
               /\ pool = [closing |-> FALSE, closed |-> FALSE, credit |-> 0, dirty |-> FALSE]

\* the function is running in a process
Running == {c \in CIds : calls[c].p # 0 /\ ~calls[c].rel /\ ~calls[c].canc /\ ~calls[c].kill}
Waiting == {c \in CIds : calls[c].p = 0 /\ calls[c].out = "" /\ ~calls[c].canc}

Call(c, k) == /\ calls' = MapSet(calls, c, [k |-> k, p |-> 0, rel |-> FALSE, canc |-> FALSE, late |-> FALSE, kill |-> FALSE, out |-> ""])
              /\ UNCHANGED <<cfg, pool>>
Release(c) == /\ calls' = [calls EXCEPT ![c].rel = TRUE]
              /\ pool' = [pool EXCEPT !.dirty = TRUE] /\ UNCHANGED cfg
\* a worker may be taking this call, or has replied already: then the signal may reach it between two calls, and end it
Cancel(c) == /\ calls' = [calls EXCEPT ![c].canc = TRUE, ![c].late = pool.dirty]
             /\ pool' = [pool EXCEPT !.dirty = TRUE, !.credit = @ + (IF pool.dirty THEN 1 ELSE 0)] /\ UNCHANGED cfg
\* if it was not running anything, or is over with it, one more call may be given to it before this is noticed
Kill(p) == LET r == {c \in Running : calls[c].p = p}
           IN /\ calls' = [c \in CIds |-> IF c \in r THEN [calls[c] EXCEPT !.kill = TRUE] ELSE calls[c]]
              /\ pool' = [pool EXCEPT !.dirty = TRUE, !.credit = @ + (IF r = {} THEN 1 ELSE 0)] /\ UNCHANGED cfg
Close == pool' = [pool EXCEPT !.closing = TRUE] /\ UNCHANGED <<cfg, calls>>

Began(c, p) ==
    /\ C(W1, "ran_twice", calls[c].p = 0)
    /\ C(W1, "two_at_once", \A x \in Running : calls[x].p # p)
    /\ C(W2, "ran_after_its_end", calls[c].out = "" \/ calls[c].late \/ pool.closing)
    /\ C(W2, "ran_although_cancelled", calls[c].canc => calls[c].late)
    /\ C(W2, "ran_after_close", ~pool.closed)
    /\ C(W1, "not_initialized", cfg.init # "bad")
    /\ C(W1, "too_many_workers", Cardinality(Running) < cfg.n)
    /\ calls' = [calls EXCEPT ![c].p = p] /\ UNCHANGED <<cfg, pool>>

Gone(c) == (calls[c].k = "die" /\ calls[c].rel /\ calls[c].p # 0) \/ calls[c].kill
Outs(c) == (IF calls[c].rel /\ calls[c].p # 0 /\ calls[c].k # "die" THEN {calls[c].k} ELSE {}) \cup
           (IF Gone(c) \/ pool.credit > 0 \/ pool.closing THEN {"lost"} ELSE {}) \cup
           (IF calls[c].canc \/ pool.closing THEN {"cancelled"} ELSE {}) \cup
           (IF pool.closing \/ cfg.init = "bad" THEN {"closed", "cancelled"} ELSE {}) \cup
           (IF cfg.init = "bad" THEN {"init"} ELSE {})
Ret(c, k) == /\ C(W1, "returned_twice", calls[c].out = "")
             /\ IF k = "lost" THEN C(W2, "wrong_loss", k \in Outs(c)) ELSE C(W1, "wrong_outcome", k \in Outs(c))
             /\ C(W2, "accepted_after_close", k \in {"ok", "exc", "err"} => ~pool.closed)
             /\ calls' = [calls EXCEPT ![c].out = k]
             /\ pool' = IF k = "lost" /\ ~Gone(c) /\ ~pool.closing THEN [pool EXCEPT !.credit = @ - 1] ELSE pool
             /\ UNCHANGED cfg
Closed == /\ C(W2, "closed_itself", pool.closing)
          /\ pool' = [pool EXCEPT !.closed = TRUE] /\ UNCHANGED <<cfg, calls>>

Idle == /\ C(W2, "outcome_not_delivered", \A c \in CIds : ((calls[c].p # 0 /\ calls[c].rel) \/ calls[c].kill \/ calls[c].canc) => calls[c].out # "")
        /\ C(W2, "not_closed", pool.closing => pool.closed)
        /\ C(W2, "stranded_by_close", pool.closing \/ cfg.init = "bad" => \A c \in CIds : calls[c].out # "")
        \* every worker which was lost has been replaced
        /\ C(W2, "not_served", pool.closing \/ cfg.init = "bad" \/
                               Cardinality(Running) >= Min(cfg.n, Cardinality(Running \cup Waiting)))
        /\ pool' = [pool EXCEPT !.dirty = FALSE] /\ UNCHANGED <<cfg, calls>>
Left(n) == C(W2, "processes_left", pool.closed => n = 0) /\ UNCHANGED vars

Step(ev) ==
    CASE ev.e = "call" -> Call(ev.c, ev.k)
      [] ev.e = "release" -> Release(ev.c)
      [] ev.e = "cancel" -> Cancel(ev.c)
      [] ev.e = "kill" -> Kill(ev.p)
      [] ev.e = "close" -> Close
      [] ev.e = "began" -> Began(ev.c, ev.p)
      [] ev.e = "ret" -> Ret(ev.c, ev.k)
      [] ev.e = "closed" -> Closed
      [] ev.e = "idle" -> Idle
      [] ev.e = "gone" -> Left(ev.n)
      [] OTHER -> C(W1, "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

\* what the clauses are meant to guarantee
Own == \A c \in CIds : calls[c].out \in {"", "lost", "cancelled", "closed", "init", calls[c].k} /\ calls[c].out # "die"
OnePerWorker == \A c, d \in Running : c # d => calls[c].p # calls[d].p
NoMoreThan == Cardinality(Running) <= cfg.n
=============================================================================
