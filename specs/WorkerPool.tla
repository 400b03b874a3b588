----------------------------- MODULE WorkerPool -----------------------------
(* aiomisc.WorkerPool: calls are queued and sent to worker processes, one at a time each.

   Environment: call(c,p) a task calls, p: the function can be sent;  cancel(c)  its task is cancelled
                conn(k,q) a process connects and presents itself: q: good, digest, unknown, packet, silent, badinit
                reply(k,r) the worker answers: ok, exc, cancelled, garbage;  lost(k) the worker is gone
                close(x)  adv(t)
   System:      authok(k) the process is accepted;  req(k,c,a) call c is sent to worker k, a: as it was made
                gone(k) the pool hangs up
                res(c,r) the caller gets: ok, exc, cancelled, lost, closed, unsent, badinit; never: cancelled before it began
                sig(k) the worker is signalled;  supsig the supervisor is;  closedone(x)
                idle(s) quiescence; s: the published statistics                                *)
EXTENDS Clauses

VARIABLES cfg, now, last, calls, ws, closing, closed, sup, bad
vars == <<cfg, now, last, calls, ws, closing, closed, sup, bad>>
W1 == "W01"
W2 == "W02"
T == "T01"
LagMs == 1500     \* close() waits up to a second

\* calls[c]: p, st: queued, sent, replied, done;  k: its worker; r: reply; canc, sig, late (made after close)
\* ws[k]: q, st: new, idle, busy, lost, gone; cur
InitWith(c) == /\ cfg = c /\ now = 0 /\ last = 0 /\ calls = EmptyMap /\ ws = EmptyMap /\ closing = {}
               /\ closed = FALSE /\ sup = 0 /\ bad = FALSE
CIds == DOMAIN calls
WIds == DOMAIN ws
Ending == closed \/ bad
Touch == last' = now /\ UNCHANGED <<cfg, now>>
TouchNot == UNCHANGED <<cfg, now, last>>

Call(c, p) == /\ calls' = MapSet(calls, c, [p |-> p, st |-> "queued", k |-> 0, r |-> "", canc |-> FALSE, sig |-> FALSE, beg |-> IF cfg.stat THEN now ELSE 0, took |-> 0, out |-> ""])
              /\ Touch /\ UNCHANGED <<ws, closing, closed, sup, bad>>
Cancel(c) == /\ calls' = [calls EXCEPT ![c].canc = TRUE] /\ Touch /\ UNCHANGED <<ws, closing, closed, sup, bad>>
Conn(k, q) == /\ ws' = MapSet(ws, k, [q |-> q, st |-> "new", in |-> FALSE, cur |-> 0, ready |-> FALSE, broken |-> FALSE])
              /\ bad' = (bad \/ q = "badinit")
              /\ Touch /\ UNCHANGED <<calls, closing, closed, sup>>
AuthOk(k) == /\ C(W1, "stranger_accepted", ws[k].q = "good")
             /\ C(W1, "accepted_twice", ws[k].st = "new")
             /\ ws' = [ws EXCEPT ![k].st = "idle", ![k].in = cfg.stat]
             /\ Touch /\ UNCHANGED <<calls, closing, closed, sup, bad>>
\* replies which were given are processed by then
Req(k, c, a) ==
    /\ C(W1, "unknown_call", c \in CIds) /\ c \in CIds
    /\ C(W1, "task_for_stranger", ws[k].q = "good" /\ ws[k].st \notin {"new", "gone"})
    /\ C(W1, "worker_is_busy", ws[k].cur = 0 \/ (calls[ws[k].cur].st \in {"replied", "done"} /\ ws[k].ready))
    /\ C(W1, "sent_twice", calls[c].k = 0)
    /\ C(W1, "wrong_arguments", a)
    /\ C(W2, "runs_after_end", calls[c].st = "queued")
    /\ calls' = [calls EXCEPT ![c].st = IF @ = "queued" THEN "sent" ELSE @, ![c].k = k]
    /\ ws' = [ws EXCEPT ![k].st = IF @ = "idle" THEN "busy" ELSE @, ![k].cur = c, ![k].ready = FALSE]
    /\ Touch /\ UNCHANGED <<closing, closed, sup, bad>>
Reply(k, r) == /\ calls' = [calls EXCEPT ![ws[k].cur].st = IF @ = "done" THEN @ ELSE "replied", ![ws[k].cur].r = r]
               /\ ws' = [ws EXCEPT ![k].st = "idle", ![k].ready = TRUE]
               /\ Touch /\ UNCHANGED <<closing, closed, sup, bad>>
Lost(k) == /\ ws' = [ws EXCEPT ![k].st = "lost", ![k].broken = cfg.stat /\ ws[k].st = "busy"]
           /\ Touch /\ UNCHANGED <<calls, closing, closed, sup, bad>>
Gone(k) == /\ C(W2, "healthy_worker_dropped", Ending \/ ws[k].q # "good" \/ ws[k].st \in {"lost", "gone"})
           /\ ws' = [ws EXCEPT ![k].st = "gone"]
           /\ Touch /\ UNCHANGED <<calls, closing, closed, sup, bad>>

WLost(c) == calls[c].k # 0 /\ ws[calls[c].k].cur = c /\ ws[calls[c].k].st \in {"lost", "gone"}
Res(c, r) ==
    /\ C(W1, "outcome_twice", calls[c].st # "done")
    /\ C(W1, "wrong_outcome",
         \/ r \in {"ok", "exc"} /\ calls[c].r = r /\ calls[c].st = "replied"
         \/ r = "never" /\ calls[c].canc
         \/ r = "cancelled" /\ (calls[c].canc \/ Ending \/ calls[c].r = "cancelled")
         \/ r \in {"lost", "other"} /\ calls[c].r = "garbage"
         \/ r = "lost" /\ (WLost(c) \/ Ending)
         \/ r = "closed" /\ Ending
         \/ r = "unsent" /\ ~calls[c].p
         \/ r = "badinit" /\ bad)
    /\ C(W2, "failed_without_worker", r = "lost" => (WLost(c) \/ Ending \/ calls[c].r = "garbage"))
    /\ calls' = [calls EXCEPT ![c].st = "done", ![c].out = IF cfg.stat THEN r ELSE "",
                                    ![c].took = IF cfg.stat THEN now - calls[c].beg ELSE 0]
    /\ Touch /\ UNCHANGED <<ws, closing, closed, sup, bad>>
Sig(k) ==
    /\ C(W2, "wrong_worker_signalled", k \in WIds /\ ws[k].cur # 0) /\ k \in WIds /\ ws[k].cur # 0
    /\ C(W2, "signalled_without_cancel", calls[ws[k].cur].canc \/ Ending)
    /\ C(W2, "signalled_twice", ~calls[ws[k].cur].sig)
    /\ calls' = [calls EXCEPT ![ws[k].cur].sig = TRUE]
    /\ Touch /\ UNCHANGED <<ws, closing, closed, sup, bad>>
SupSig == /\ C(W2, "supervisor_signalled", Ending) /\ sup' = sup + 1 /\ Touch /\ UNCHANGED <<calls, ws, closing, closed, bad>>
Close(x) == /\ closing' = closing \cup {x} /\ closed' = TRUE /\ Touch /\ UNCHANGED <<calls, ws, sup, bad>>
CloseDone(x) == /\ C(W2, "supervisor_left", sup > 0)
                /\ closing' = closing \ {x} /\ Touch /\ UNCHANGED <<calls, ws, closed, sup, bad>>

Late == now >= last + LagMs
Quiet == Late \/ ~Ending
Free == {k \in WIds : ws[k].q = "good" /\ ws[k].st = "idle"}
IdleOK ==
    /\ C(W1, "worker_not_accepted", ~Ending => \A k \in WIds : ~(ws[k].q = "good" /\ ws[k].st = "new"))
    /\ C(W1, "stranger_connected", Late => \A k \in WIds : ws[k].q \in {"digest", "unknown", "packet"} => ws[k].st \in {"gone", "lost"})
    /\ C(W1, "outcome_not_delivered", Quiet => \A c \in CIds : calls[c].st # "replied")
    /\ C(W2, "call_not_served", ~Ending => (Free = {} \/ (\A c \in CIds : calls[c].st # "queued" \/ ~calls[c].p)))
    /\ C(W2, "caller_of_lost_worker_waits", Quiet => \A c \in CIds : WLost(c) => calls[c].st = "done")
    /\ C(W2, "cancelled_caller_waits", \A c \in CIds : calls[c].canc => calls[c].st = "done")
    /\ C(W2, "cancelled_call_not_signalled", Quiet => \A k \in WIds :
           ws[k].st = "busy" /\ calls[ws[k].cur].canc => calls[ws[k].cur].sig)
    /\ C(W2, "close_hangs", Late => closing = {})
    /\ C(W2, "caller_left", Late /\ Ending => \A c \in CIds : calls[c].st = "done")
    /\ C(W2, "worker_left", Late /\ Ending => \A k \in WIds : ws[k].st \in {"gone", "lost"})
\* the statistics are the history: of the calls which were made, those of a closed pool might be refused
Made == {c \in CIds : calls[c].out # "never"}
Over == {c \in Made : calls[c].st = "done"}
Refused == {c \in Over : calls[c].out = "closed"}
Good == {c \in Over : calls[c].out = "ok"}
Accepted == {k \in WIds : ws[k].st # "new" /\ ws[k].in}
Took == SumF([c \in Over |-> calls[c].took], Over)
\* an idle worker which is gone might be noticed by the next call only
Counted(k) == ws[k].st \notin {"gone", "lost"} \/ (~Ending /\ ~ws[k].broken)
Among(n, hi, d) == n \in (hi - d)..hi
StatOK(s) ==
    LET d == Cardinality(Refused)
    IN /\ C(T, "submitted", Among(s.submitted, Cardinality(Made), d))
       /\ C(T, "done", s.done = s.submitted - Cardinality(Made \ Over))
       /\ C(T, "success", s.success = Cardinality(Good))
       /\ C(T, "error", s.error = s.done - s.success)
       /\ C(T, "sum_time", s.sum_time \in (Took - Cardinality(CIds) - 1)..(Took + Cardinality(CIds) + 1))
       /\ C(T, "queue_size", s.queue_size = cfg.m)
       /\ C(T, "spawning", s.spawning = Cardinality({k \in WIds : ws[k].in}))
       /\ C(T, "processes", Quiet => /\ s.processes <= Cardinality({k \in Accepted : Counted(k)})
                                     /\ s.processes >= Cardinality({k \in Accepted : ws[k].st \notin {"gone", "lost"}}))
       /\ C(T, "bad_auth", LET n == Cardinality({k \in WIds : ws[k].q = "digest"})
                           IN s.bad_auth <= n /\ (~Ending => s.bad_auth = n))
Idle(s) == IdleOK /\ (cfg.stat => StatOK(s)) /\ UNCHANGED vars
Adv(t) == now' = t /\ UNCHANGED <<cfg, last, calls, ws, closing, closed, sup, bad>>

Step(ev) ==
    CASE ev.e = "call" -> Call(ev.c, ev.p)
      [] ev.e = "cancel" -> Cancel(ev.c)
      [] ev.e = "conn" -> Conn(ev.k, ev.q)
      [] ev.e = "authok" -> AuthOk(ev.k)
      [] ev.e = "req" -> Req(ev.k, ev.c, ev.a)
      [] ev.e = "reply" -> Reply(ev.k, ev.r)
      [] ev.e = "lost" -> Lost(ev.k)
      [] ev.e = "gone" -> Gone(ev.k)
      [] ev.e = "res" -> Res(ev.c, ev.r)
      [] ev.e = "sig" -> Sig(ev.k)
      [] ev.e = "supsig" -> SupSig
      [] ev.e = "close" -> Close(ev.x)
      [] ev.e = "closedone" -> CloseDone(ev.x)
      [] ev.e = "idle" -> Idle(ev.s)
      [] ev.e = "adv" -> Adv(ev.t)
      [] OTHER -> C(W1, "unexpected_" \o ev.e, FALSE) /\ C(W2, "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

\* what the clauses are meant to guarantee
OneWorker == \A c, d \in CIds : c # d /\ calls[c].k # 0 /\ calls[c].k = calls[d].k =>
                 ~(calls[c].st = "sent" /\ calls[d].st = "sent" /\ ws[calls[c].k].st = "busy" /\ ~calls[c].canc /\ ~calls[d].canc)
OnlyGood == \A c \in CIds : calls[c].k # 0 => ws[calls[c].k].q = "good"
=============================================================================
