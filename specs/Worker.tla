------------------------------- MODULE Worker -------------------------------
(* A process of aiomisc.WorkerPool: presents itself, then runs the requests one by one.

   Environment: welcome(r) the pool answers: ok, fail   req(i,k) a request has come, k: what its function does:
                  ok, exc, cancel (raises CancelledError), catch (ok whatever happens), exit, unsent (the result can't be sent)
                sig   the cancel signal arrives   eof  the pool is gone
   System:      auth(ok) it presents itself   run(i)   ran(i,h) h: ok, exc, cancelled, exit
                reply(i,r) r: ok, exc, cancelled, wrong    exit                                        *)
EXTENDS Clauses
VARIABLES cfg, ph, cur, kind, how, sigd, hit, left
vars == <<cfg, ph, cur, kind, how, sigd, hit, left>>
W1 == "W01"
W2 == "W02"
\* ph: start, wait, idle, req (has come), run, ran, dead;  sigd: a signal came in this phase (wait, idle, req)
\* hit: one came since the request;  left: the pool is gone or refused
InitWith(c) == cfg = c /\ ph = "start" /\ cur = 0 /\ kind = "" /\ how = "" /\ sigd = FALSE /\ hit = FALSE /\ left = FALSE

Auth(ok) == /\ C(W1, "bad_secret", ok) /\ C(W1, "presented_twice", ph = "start")
            /\ ph' = "wait" /\ UNCHANGED <<cfg, cur, kind, how, sigd, hit, left>>
Welcome(r) == /\ ph' = (IF r = "ok" THEN "idle" ELSE "wait") /\ left' = (left \/ r # "ok")
              /\ UNCHANGED <<cfg, cur, kind, how, sigd, hit>>
Req(i, k) == /\ ph' = "req" /\ cur' = i /\ kind' = k /\ how' = "" /\ hit' = sigd
             /\ UNCHANGED <<cfg, sigd, left>>
Sig == /\ sigd' = (sigd \/ ph \in {"start", "wait", "idle", "req"}) /\ hit' = TRUE
       /\ UNCHANGED <<cfg, ph, cur, kind, how, left>>
Eof == left' = TRUE /\ UNCHANGED <<cfg, ph, cur, kind, how, sigd, hit>>
Run(i) == /\ C(W1, "not_the_request", ph = "req" /\ i = cur)
          /\ ph' = "run" /\ sigd' = FALSE /\ UNCHANGED <<cfg, cur, kind, how, hit, left>>
Ran(i, h) == /\ C(W2, "cancelled_without_signal", h = "cancelled" => hit \/ kind = "cancel")
             /\ ph' = "ran" /\ how' = h /\ UNCHANGED <<cfg, cur, kind, sigd, hit, left>>
Reply(i, r) ==
    /\ C(W1, "reply_without_request", i = cur /\ ph \in {"req", "run", "ran"})
    /\ C(W1, "wrong_reply", \/ r = "cancelled"
                            \/ ph = "ran" /\ (IF kind = "unsent" /\ how = "ok" THEN r = "exc" ELSE r = how))
    /\ C(W2, "cancelled_without_signal", r = "cancelled" => (hit \/ how = "cancelled"))
    /\ ph' = "idle" /\ sigd' = FALSE /\ UNCHANGED <<cfg, cur, kind, how, hit, left>>
Exit == /\ C(W2, "worker_lost", left \/ sigd \/ how = "exit" \/ ph = "start")
        /\ ph' = "dead" /\ UNCHANGED <<cfg, cur, kind, how, sigd, hit, left>>
IdleOK == /\ C(W2, "no_reply", ph \in {"idle", "dead", "wait", "start"})
          /\ C(W2, "stays", left => ph = "dead")
Idle == IdleOK /\ UNCHANGED vars
Step(ev) ==
    CASE ev.e = "auth" -> Auth(ev.ok)
      [] ev.e = "welcome" -> Welcome(ev.r)
      [] ev.e = "req" -> Req(ev.i, ev.k)
      [] ev.e = "sig" -> Sig
      [] ev.e = "eof" -> Eof
      [] ev.e = "run" -> Run(ev.i)
      [] ev.e = "ran" -> Ran(ev.i, ev.h)
      [] ev.e = "reply" -> Reply(ev.i, ev.r)
      [] ev.e = "exit" -> Exit
      [] ev.e = "idle" -> Idle
      [] OTHER -> C(W1, "unexpected_" \o ev.e, FALSE) /\ C(W2, "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars
=============================================================================
