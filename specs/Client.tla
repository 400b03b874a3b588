------------------------------- MODULE Client -------------------------------
(* TCPClient, TLSClient, RobustTCPClient and RobustTLSClient.  Every attempt to connect has a number i; an established connection and
   the call of its handler have the number of their attempt.

   Environment:  start  start() is called        answer(i,k) the attempt is answered (k: ok, refused, error: some other failure)
                 drop(i) the peer is gone         end(i,k) the handler is told to end (k: ok, fail)
                 released(i) a cancelled handler finishes its cleanup         stop   the service is being stopped
   System:       attempt(i)    aborted(i) the attempt is given up   call(i)  the handler is called   cancel(i) it is cancelled
                 fin(i) it has ended   closed(i) the connection is closed   ready the service says it is started
                 started(r) start() has ended (r: ok, error, cancelled)     stopped  stop() has returned
   cfg: [robust, n: attempts, rt: retry timeout, rc: reconnect timeout]                                                       *)
EXTENDS Clauses
VARIABLES cfg, now, ph, cur, k, how, dues, res, open, gone, st, ready, est, ret
vars == <<cfg, now, ph, cur, k, how, dues, res, open, gone, st, ready, est, ret>>
N == "N02"
\* ph: new, due (an attempt is due at one of dues), try, up (connected), run, end (told to end), cxl (cancelled, cleaning up), go, over
\* (start() must end, with res, at one of dues), none (stopped);  ret: start() has ended;
\* how: what the handler was told;  open: connections;  gone: those whose peer is gone or whose handler has ended;  est: ready is due
InitWith(c) == /\ cfg = c /\ now = 0 /\ ph = "new" /\ cur = 0 /\ k = 0 /\ how = "" /\ dues = {} /\ res = "" /\ open = {} /\ gone = {}
               /\ st = "up" /\ ready = FALSE /\ est = FALSE /\ ret = FALSE
Working == ph \in {"run", "end", "cxl", "go"}

Start == /\ ph = "new" /\ ph' = "due" /\ dues' = {now}
         /\ UNCHANGED <<cfg, now, cur, k, how, res, open, gone, st, ready, est, ret>>
Attempt(i) ==
    /\ C(N, "attempt_after_stop", st = "up")
    /\ C(N, "attempt_while_connected", ~Working /\ ph \notin {"try", "up"})
    /\ C(N, "attempt_not_due", ph = "due" /\ now \in dues)
    /\ i > cur
    /\ ph' = "try" /\ cur' = i /\ dues' = {}
    /\ UNCHANGED <<cfg, now, k, how, res, open, gone, st, ready, est, ret>>
\* the connection failed for good, after all attempts
GiveUp(ds) == IF cfg.robust THEN /\ ph' = "due" /\ k' = 0 /\ est' = TRUE /\ res' = res
                                 /\ dues' = {d + cfg.rc : d \in ds}
              ELSE ph' = "over" /\ res' = "error" /\ dues' = ds /\ UNCHANGED <<k, est>>
Answer(i, x) ==
    /\ ph = "try" /\ cur = i
    /\ CASE x = "ok" -> /\ C(N, "second_connection", open = {})
                        /\ ph' = "up" /\ open' = open \cup {i} /\ k' = 0 /\ est' = TRUE /\ UNCHANGED <<dues, res>>
         [] x = "refused" /\ k + 1 < cfg.n -> /\ ph' = "due" /\ dues' = {now + cfg.rt} /\ k' = k + 1
                                              /\ UNCHANGED <<open, est, res>>
         \* the last one may or may not be followed by the pause between the attempts
         [] x = "refused" /\ k + 1 >= cfg.n -> GiveUp({now, now + cfg.rt}) /\ open' = open
         [] x = "error" -> GiveUp({now}) /\ open' = open
    /\ UNCHANGED <<cfg, now, cur, how, gone, st, ready, ret>>
Aborted(i) ==
    /\ C(N, "attempt_aborted", st # "up")
    /\ ph = "try" /\ cur = i
    /\ ph' = "none" /\ UNCHANGED <<cfg, now, cur, k, how, dues, res, open, gone, st, ready, est, ret>>
Call(i) ==
    /\ C(N, "called_after_stop", st # "down")
    /\ C(N, "called_wrongly", ph = "up" /\ cur = i)
    /\ ph' = "run" /\ how' = "" /\ UNCHANGED <<cfg, now, cur, k, dues, res, open, gone, st, ready, est, ret>>
Drop(i) == gone' = gone \cup {i} /\ UNCHANGED <<cfg, now, ph, cur, k, how, dues, res, open, st, ready, est, ret>>
End(i, x) == /\ ph = "run" /\ cur = i
             /\ ph' = "end" /\ how' = x /\ UNCHANGED <<cfg, now, cur, k, dues, res, open, gone, st, ready, est, ret>>
Cancel(i) == /\ C(N, "cancelled_needlessly", st # "up")
             /\ ph \in {"run", "end"} /\ cur = i
             /\ ph' = "cxl" /\ UNCHANGED <<cfg, now, cur, k, how, dues, res, open, gone, st, ready, est, ret>>
Released(i) == /\ ph = "cxl" /\ cur = i /\ ph' = "go" /\ UNCHANGED <<cfg, now, cur, k, how, dues, res, open, gone, st, ready, est, ret>>
Fin(i) ==
    /\ ph \in {"end", "go"} /\ cur = i
    /\ gone' = gone \cup {i}
    /\ IF st # "up" THEN ph' = "none" /\ UNCHANGED <<dues, res>>
       ELSE IF how = "fail" /\ cfg.robust THEN ph' = "due" /\ dues' = {now + cfg.rc} /\ res' = res
       ELSE ph' = "over" /\ dues' = {now} /\ res' = "ok"
    /\ UNCHANGED <<cfg, now, cur, k, how, open, st, ready, est, ret>>
Closed(i) ==
    /\ C(N, "closed_needlessly", st # "up" \/ i \in gone)
    /\ i \in open
    /\ open' = open \ {i} /\ UNCHANGED <<cfg, now, ph, cur, k, how, dues, res, gone, st, ready, est, ret>>
Ready == /\ C(N, "ready_too_early", est \/ ret \/ st # "up")
         /\ ready' = TRUE /\ UNCHANGED <<cfg, now, ph, cur, k, how, dues, res, open, gone, st, est, ret>>
Started(r) ==
    /\ C(N, "ended_too_early", st # "up" \/ (ph = "over" /\ now \in dues))
    /\ C(N, "ended_wrongly", st # "up" \/ r = res)
    /\ ~ret /\ ret' = TRUE /\ UNCHANGED <<cfg, now, ph, cur, k, how, dues, res, open, gone, st, ready, est>>
Stop == /\ st = "up" /\ ph # "new" /\ st' = "stopping"
        /\ UNCHANGED <<cfg, now, ph, cur, k, how, dues, res, open, gone, ready, est, ret>>
Stopped == /\ st = "stopping"
           /\ C(N, "handler_left_running", ~Working)
           /\ C(N, "attempt_left_running", ph # "try")
           /\ st' = "down" /\ UNCHANGED <<cfg, now, ph, cur, k, how, dues, res, open, gone, ready, est, ret>>
Adv(t) == now' = t /\ UNCHANGED <<cfg, ph, cur, k, how, dues, res, open, gone, st, ready, est, ret>>

Later == \E d \in dues : d > now
\* con: the client says it is connected
IdleOK(con) ==
    /\ C(N, "no_attempt", (ph = "due" /\ st = "up") => Later)
    /\ C(N, "connection_not_handled", ~(ph = "up" /\ st = "up"))
    /\ C(N, "handler_hindered", ph \notin {"end", "go"})
    /\ C(N, "start_does_not_end", (ph = "over" /\ st = "up") => (ret \/ Later))
    /\ C(N, "failed_left_open", ~(open \cap gone # {} /\ how = "fail" /\ ~Working /\ st = "up" /\ cur \in gone))
    /\ C(N, "not_ready", (est /\ st = "up") => (ready \/ Later))
    /\ C(N, "not_stopping", st # "up" => ph \notin {"try", "run", "end"})
    /\ C(N, "stop_hangs", st = "stopping" => Working)
    /\ C(N, "connection_left_open", st = "down" => open = {})
    /\ C(N, "start_left_running", st = "down" => ret)
    /\ C(N, "connected_wrong", (cfg.robust /\ st = "up") => con = (ph = "run"))
Idle(con) == IdleOK(con) /\ UNCHANGED vars

Step(ev) ==
    CASE ev.e = "start" -> Start
      [] ev.e = "attempt" -> Attempt(ev.i)
      [] ev.e = "answer" -> Answer(ev.i, ev.k)
      [] ev.e = "aborted" -> Aborted(ev.i)
      [] ev.e = "call" -> Call(ev.i)
      [] ev.e = "drop" -> Drop(ev.i)
      [] ev.e = "end" -> End(ev.i, ev.k)
      [] ev.e = "cancel" -> Cancel(ev.i)
      [] ev.e = "released" -> Released(ev.i)
      [] ev.e = "fin" -> Fin(ev.i)
      [] ev.e = "closed" -> Closed(ev.i)
      [] ev.e = "ready" -> Ready
      [] ev.e = "started" -> Started(ev.r)
      [] ev.e = "stop" -> Stop
      [] ev.e = "stopped" -> Stopped
      [] ev.e = "adv" -> Adv(ev.t)
      [] ev.e = "idle" -> Idle(ev.con)
      [] OTHER -> C(N, "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars
\* what the clauses are meant to guarantee
OneConnection == Cardinality(open) <= 1
DownIsDown == st = "down" => ~Working /\ ph # "try"
OpenIsHandled == (ph \in {"run", "end"} /\ st = "up") => \A c \in open : c = cur
=============================================================================
