------------------------------ MODULE Watchdog ------------------------------
(* SDWatchdogService in an entrypoint, as systemd sees it.

   Environment:  enter   the entrypoint is entered      ready(s) service s is started (k: ok, fail)
                 exit    the entrypoint is being left    down(s) the stop() of service s ends
   System:       msg(m,x) systemd receives a message (m: starting, started, stopping with the number of services x; ready, bye;
                          watchdog; usec with the microseconds x)
                 begin(s) stop(s)  start() and stop() of service s are called
                 entered(r) entering has ended (r: ok, fail)     left  leaving has
   cfg: [n: other services, sock: is there a notify socket, iv: interval, env: interval of the environment, 0: none (both in ms)] *)
EXTENDS Clauses
VARIABLES cfg, now, st, up, stops, sent, t0, nw, tstop
vars == <<cfg, now, st, up, stops, sent, t0, nw, tstop>>
N == "V02"
\* st: new, enter, in, exit, out, failed;  up: services which are started;  stops: s -> has its stop() ended;
\* sent: the messages so far, without keep-alives;  t0: when the services began to start;  nw: keep-alives so far
InitWith(c) == /\ cfg = c /\ now = 0 /\ st = "new" /\ up = EmptyMap /\ stops = EmptyMap /\ sent = <<>> /\ t0 = -1 /\ nw = 0 /\ tstop = -1
Sent(m) == m \in Range(sent)
Once(m) == ~Sent(m)
Ticking == cfg.sock /\ cfg.iv > 0
Announce == cfg.iv # cfg.env /\ cfg.iv > 0
AllUp == Cardinality(DOMAIN up) = cfg.n /\ \A s \in DOMAIN up : up[s] = "ok"
Failed == \E s \in DOMAIN up : up[s] = "fail"
AllDown == Cardinality(DOMAIN stops) = cfg.n /\ \A s \in DOMAIN stops : stops[s]

Enter == st = "new" /\ st' = "enter" /\ UNCHANGED <<cfg, now, up, stops, sent, t0, nw, tstop>>
Begin(s) == /\ C(N, "not_told_before_start", cfg.sock => Sent("starting"))
            /\ t0' = (IF t0 < 0 THEN now ELSE t0) /\ UNCHANGED <<cfg, now, st, up, stops, sent, nw, tstop>>
Ready(s, k) == up' = MapSet(up, s, k) /\ UNCHANGED <<cfg, now, st, stops, sent, t0, nw, tstop>>
Exit == st = "in" /\ st' = "exit" /\ UNCHANGED <<cfg, now, up, stops, sent, t0, nw, tstop>>
Stop(s) == /\ C(N, "not_told_before_stop", cfg.sock => Sent("stopping"))
           /\ stops' = MapSet(stops, s, FALSE) /\ tstop' = (IF tstop < 0 THEN now ELSE tstop)
           /\ UNCHANGED <<cfg, now, st, up, sent, t0, nw>>
Down(s) == s \in DOMAIN stops /\ ~stops[s] /\ stops' = [stops EXCEPT ![s] = TRUE] /\ UNCHANGED <<cfg, now, st, up, sent, t0, nw, tstop>>
Msg(m, x) ==
    /\ C(N, "sent_without_socket", cfg.sock)
    /\ C(N, "sent_out_of_life", st \in {"enter", "in", "exit"} \/ (st = "failed" /\ m = "watchdog"))
    /\ C(N, "sent_after_the_end", ~Sent("bye"))
    /\ CASE m = "starting" -> /\ C(N, "starting_wrong", sent = <<>> /\ nw = 0 /\ t0 < 0 /\ x = cfg.n + 1)
         [] m = "usec" -> /\ C(N, "usec_wrong", Sent("starting") /\ Once(m) /\ ~Sent("started") /\ nw = 0 /\ Announce /\ x = cfg.iv * 1000)
         [] m = "watchdog" -> /\ C(N, "watchdog_not_asked_for", Ticking)
                              /\ C(N, "watchdog_before_interval", Announce => Sent("usec"))
                              /\ C(N, "watchdog_not_due", t0 >= 0 /\ now * 2 = t0 * 2 + nw * cfg.iv)
                              /\ C(N, "watchdog_after_stop", tstop < 0 \/ now = tstop)
         [] m = "started" -> /\ C(N, "started_wrong", Once(m) /\ (Announce => Sent("usec")) /\ AllUp /\ st = "enter" /\ x = cfg.n + 1)
         [] m = "ready" -> /\ C(N, "ready_wrong", Once(m) /\ (Announce => Sent("usec")) /\ AllUp /\ st = "enter")
         [] m = "stopping" -> /\ C(N, "stopping_wrong", Once(m) /\ st = "exit" /\ tstop < 0 /\ x = cfg.n + 1)
         [] m = "bye" -> /\ C(N, "end_wrong", Once(m) /\ st = "exit" /\ Sent("stopping") /\ AllDown)
         [] OTHER -> C(N, "unknown_message", FALSE)
    /\ IF m = "watchdog" THEN nw' = nw + 1 /\ sent' = sent ELSE nw' = nw /\ sent' = Append(sent, m)
    /\ UNCHANGED <<cfg, now, st, up, stops, t0, tstop>>
Entered(r) == /\ C(N, "entered_wrong", r = (IF AllUp THEN "ok" ELSE "fail"))
              /\ C(N, "ready_not_told", (cfg.sock /\ AllUp) => Sent("ready"))
              /\ st = "enter" /\ st' = (IF r = "ok" THEN "in" ELSE "failed") /\ UNCHANGED <<cfg, now, up, stops, sent, t0, nw, tstop>>
Left == /\ C(N, "end_not_told", cfg.sock => Sent("bye"))
        /\ st = "exit" /\ st' = "out" /\ UNCHANGED <<cfg, now, up, stops, sent, t0, nw, tstop>>
Adv(t) == now' = t /\ UNCHANGED <<cfg, st, up, stops, sent, t0, nw, tstop>>

IdleOK ==
    /\ C(N, "not_entered", st = "enter" => ~AllUp /\ ~Failed)
    /\ C(N, "not_started", st = "enter" => t0 >= 0)
    /\ C(N, "keep_alive_missed", (Ticking /\ t0 >= 0 /\ tstop < 0 /\ st \in {"enter", "in"}) => now * 2 < t0 * 2 + nw * cfg.iv)
    /\ C(N, "not_left", st = "exit" => ~AllDown)
Idle == IdleOK /\ UNCHANGED vars

Step(ev) ==
    CASE ev.e = "enter" -> Enter
      [] ev.e = "begin" -> Begin(ev.s)
      [] ev.e = "ready" -> Ready(ev.s, ev.k)
      [] ev.e = "exit" -> Exit
      [] ev.e = "stop" -> Stop(ev.s)
      [] ev.e = "down" -> Down(ev.s)
      [] ev.e = "msg" -> Msg(ev.m, ev.x)
      [] ev.e = "entered" -> Entered(ev.r)
      [] ev.e = "left" -> Left
      [] ev.e = "adv" -> Adv(ev.t)
      [] ev.e = "idle" -> Idle
      [] OTHER -> C(N, "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars
\* what the clauses are meant to guarantee
Ordered == \A i, j \in DOMAIN sent : i < j =>
             LET o == <<"starting", "usec", "started", "ready", "stopping", "bye">>
                 Pos(m) == CHOOSE p \in DOMAIN o : o[p] = m IN Pos(sent[i]) < Pos(sent[j]) \/ {sent[i], sent[j]} = {"started", "ready"}
ReadyIsReady == Sent("ready") => AllUp
Silent == (~cfg.sock) => sent = <<>> /\ nw = 0
=============================================================================
