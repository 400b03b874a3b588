----------------------------- MODULE Entrypoint -----------------------------
(* aiomisc.entrypoint: starting and stopping services.

   A group is a set of services started together: group 0 by entering the entrypoint,
   others by start_services().  A batch is a set of services stopped together: batch 0
   by the shutdown, others by stop_services().

   Environment: enter(mode,ss,tmo)  dstart(g,ss)  dstop(b,ss)
                sev(s) the service sets its start event;  send(s,k) start() ends
                pend(s,k) stop() ends;  bg(x) bgend(x) a background task begins, ends
                wait(w) a task calls closing();  intr a signal arrives
                exit(k) the body ends: none or exc;  adv(t)
                hook(h,a,g,ss) with a = "e" or "c": a hook ends (normally, by cancellation)
   System:      hook(h,"b",g,ss) a hook is called;  sbegin(s,ok) screq(s)
                pbegin(s,x) stop(x) is called, x: none, exc, intr or exit70;  pcreq(s)
                entered(k,s) dstarted(g,k,s) dstopped(b)
                bgcreq(x) maincreq closed(w) exit70(fin) loopstop exited(k,s,ctx)

   mode: "with" and "run" own their loop, "async" does not.                        *)
EXTENDS Clauses

VARIABLES cfg, ph, now, svc, grp, bat, bgs, waiters, causes, tint, kill, over

vars == <<cfg, ph, now, svc, grp, bat, bgs, waiters, causes, tint, kill, over>>
E1 == "E01"
E2 == "E02"
Owner == cfg.mode # "async"

InitWith(c) ==
    /\ cfg = c /\ ph = "init" /\ now = 0 /\ svc = EmptyMap /\ grp = EmptyMap /\ bat = EmptyMap
    /\ bgs = EmptyMap /\ waiters = {} /\ causes = {} /\ tint = -1 /\ kill = FALSE /\ over = FALSE

\* the time a graceful shutdown may take after an interrupt is limited
Expired == tint >= 0 /\ now >= tint + cfg.tmo
K == kill \/ Expired

NewSvc(ss, g) == [s \in DOMAIN svc \cup ss |->
    IF s \in ss THEN [g |-> g, st |-> "new", ev |-> FALSE, rdy |-> FALSE, k |-> "", fresh |-> FALSE, amb |-> FALSE, creq |-> 0, stop |-> "no", late |-> FALSE, pcreq |-> 0]
    ELSE svc[s]]
NewGrp(ss) == [ss |-> ss, pre |-> "no", post |-> "no", st |-> "run", kk |-> "", fs |-> {}]
NewBat(ss) == [ss |-> ss, pre |-> "no", post |-> "no", st |-> "run", ever |-> FALSE]

Enter(ss) == /\ ph = "init" /\ ph' = "entering"
             /\ svc' = NewSvc(ss, 0) /\ grp' = MapSet(grp, 0, NewGrp(ss))
             /\ UNCHANGED <<cfg, now, bat, bgs, waiters, causes, tint, kill, over>>
DStart(g, ss) == /\ ph = "entered" /\ g \notin DOMAIN grp
                 /\ svc' = NewSvc(ss, g) /\ grp' = MapSet(grp, g, NewGrp(ss))
                 /\ UNCHANGED <<cfg, ph, now, bat, bgs, waiters, causes, tint, kill, over>>
DStop(b, ss) == /\ ph = "entered" /\ b \notin DOMAIN bat
                /\ bat' = MapSet(bat, b, NewBat(ss))
                /\ UNCHANGED <<cfg, ph, now, svc, grp, bgs, waiters, causes, tint, kill, over>>

Running == {s \in DOMAIN svc : svc[s].st = "starting"}
\* services the shutdown has to stop
Live == {s \in DOMAIN svc : svc[s].st # "new" /\ svc[s].stop = "no"}
Ready(s) == svc[s].ev \/ (svc[s].st = "ended" /\ svc[s].k = "ok")

SBegin(s, ok) ==
    /\ C(E1, "started_twice", svc[s].st = "new")
    /\ C(E1, "not_on_the_loop", ok)
    /\ C(E1, "started_before_pre_start_hooks", grp[svc[s].g].pre = "done")
    /\ C(E1, "started_while_stopping", ph \in {"entering", "entered"})
    /\ svc' = [svc EXCEPT ![s].st = "starting"]
    /\ UNCHANGED <<cfg, ph, now, grp, bat, bgs, waiters, causes, tint, kill, over>>
SEv(s) == /\ svc[s].st = "starting"
          /\ svc' = [svc EXCEPT ![s].ev = TRUE, ![s].fresh = @ \/ ~svc[s].ev]
          /\ UNCHANGED <<cfg, ph, now, grp, bat, bgs, waiters, causes, tint, kill, over>>
\* amb: failed at the very moment its event was set
SEnd(s, k) ==
    /\ svc[s].st = "starting"
    /\ svc' = [svc EXCEPT ![s].st = "ended", ![s].k = k, ![s].amb = k # "ok" /\ svc[s].fresh]
    /\ grp' = [grp EXCEPT ![svc[s].g].fs = IF k # "ok" /\ ph \in {"entering", "entered"} /\ (~svc[s].ev \/ svc[s].fresh)
                                           THEN @ \cup {s} ELSE @]
    /\ UNCHANGED <<cfg, ph, now, bat, bgs, waiters, causes, tint, kill, over>>
SCreq(s) ==
    /\ C(E1, "start_cancelled", ph = "stopping" \/ over \/ ph = "failed")
    /\ svc' = [svc EXCEPT ![s].creq = @ + 1]
    /\ UNCHANGED <<cfg, ph, now, grp, bat, bgs, waiters, causes, tint, kill, over>>

\* definite failures, and ones which may count either way
Sure(g) == {s \in grp[g].fs : ~svc[s].amb}
AllReady(g) == \A s \in grp[g].ss : Ready(s) \/ s \in grp[g].fs

HookStart(h, a, g) ==
    IF h = "pre_start"
    THEN /\ C(E1, "pre_start_again", a = "b" => grp[g].pre = "no")
         /\ grp' = [grp EXCEPT ![g].pre = IF a = "b" THEN "run" ELSE "done"]
    ELSE /\ C(E1, "post_start_again", a = "b" => grp[g].post = "no")
         /\ C(E1, "post_start_too_early", a = "b" => grp[g].pre = "done" /\ (AllReady(g) \/ Sure(g) # {} \/ grp[g].fs # {}))
         /\ grp' = [grp EXCEPT ![g].post = IF a = "b" THEN "run" ELSE "done"]
HookStop(h, a, b, ss) ==
    IF h = "pre_stop" /\ a = "b"
    THEN /\ C(E2, "pre_stop_again", b \notin DOMAIN bat \/ bat[b].pre = "no" \/ (b = 0 /\ bat[b].st = "done") \/ K)
         /\ C(E2, "stopping_without_reason", b = 0 => ph = "stopping" \/ (ph = "exited" /\ tint >= 0))
         /\ C(E2, "wrong_services", b = 0 => ss = Live \/ ss = {} \/ K)
         /\ C(E2, "service_left_out", b = 0 /\ ~K => ss = Live)
         /\ C(E2, "start_still_running", b = 0 => Running = {})
         /\ bat' = MapSet(bat, b, [NewBat(ss) EXCEPT !.pre = "run", !.ever = b \in DOMAIN bat /\ bat[b].ever])
    ELSE IF b \notin DOMAIN bat
    THEN C(E2, "hooks_out_of_order", FALSE) /\ UNCHANGED bat
    ELSE IF h = "pre_stop"
    THEN bat' = [bat EXCEPT ![b].pre = IF a = "e" THEN "done" ELSE "cancelled"]
    ELSE IF a = "b"
    THEN /\ C(E2, "post_stop_again", bat[b].post = "no" \/ K)
         /\ C(E2, "post_stop_too_early", bat[b].pre = "done" /\ \A s \in bat[b].ss : svc[s].stop = "done")
         /\ bat' = [bat EXCEPT ![b].post = "run"]
    ELSE bat' = [bat EXCEPT ![b].post = "done", ![b].st = "done", ![b].ever = TRUE]
Hook(h, a, g, ss) ==
    /\ IF h \in {"pre_start", "post_start"} THEN HookStart(h, a, g) /\ UNCHANGED bat
       ELSE HookStop(h, a, g, ss) /\ UNCHANGED grp
    /\ UNCHANGED <<cfg, ph, now, svc, bgs, waiters, causes, tint, kill, over>>

StartOutcome(g, k, s) ==
    /\ C(E1, "outcome_before_post_start_hooks", grp[g].post = "done")
    /\ C(E1, "ready_too_early", k = "ok" => \A x \in grp[g].ss : Ready(x) \/ svc[x].amb)
    /\ C(E1, "failure_lost", k = "ok" => Sure(g) = {})
    /\ C(E1, "wrong_failure", k = "raise" => s \in grp[g].fs)
    /\ C(E1, "strange_outcome", k \in {"ok", "raise"})
Entered(k, s) ==
    /\ StartOutcome(0, k, s)
    /\ C(E1, "entered_twice", ph = "entering")
    /\ ph' = IF k = "ok" THEN "entered" ELSE "failed"
    /\ grp' = [grp EXCEPT ![0].st = "done"]
    /\ over' = (k # "ok")
    /\ UNCHANGED <<cfg, now, svc, bat, bgs, waiters, causes, tint, kill>>
DStarted(g, k, s) ==
    /\ StartOutcome(g, k, s)
    /\ grp' = [grp EXCEPT ![g].st = "done"]
    /\ UNCHANGED <<cfg, ph, now, svc, bat, bgs, waiters, causes, tint, kill, over>>
DStopped(b) ==
    /\ C(E2, "stop_services_returned_early", bat[b].st = "done")
    /\ UNCHANGED vars

Exit(k) == /\ ph \in {"entered", "stopping"} /\ ph' = "stopping" /\ causes' = causes \cup {k}
           /\ UNCHANGED <<cfg, now, svc, grp, bat, bgs, waiters, tint, kill, over>>
Intr == /\ ph \in {"entered", "stopping"} /\ tint = -1
        /\ ph' = "stopping" /\ tint' = now /\ causes' = causes \cup {"intr"}
        /\ UNCHANGED <<cfg, now, svc, grp, bat, bgs, waiters, kill, over>>

InBatch(s, b) == b \in DOMAIN bat /\ s \in bat[b].ss
PBegin(s, x) ==
    /\ C(E2, "stopped_twice", svc[s].stop = "no")
    /\ C(E2, "stop_before_pre_stop_hooks", \E b \in DOMAIN bat : s \in bat[b].ss /\ bat[b].pre = "done")
    /\ C(E2, "wrong_reason", IF \E b \in DOMAIN bat \ {0} : s \in bat[b].ss /\ bat[b].st = "run"
                             THEN x = "none" ELSE x \in causes \/ (x = "exit70" /\ K))
    /\ svc' = [svc EXCEPT ![s].stop = "run", ![s].late = K]
    /\ UNCHANGED <<cfg, ph, now, grp, bat, bgs, waiters, causes, tint, kill, over>>
PEnd(s, k) == /\ svc[s].stop = "run" /\ svc' = [svc EXCEPT ![s].stop = "done"]
              /\ UNCHANGED <<cfg, ph, now, grp, bat, bgs, waiters, causes, tint, kill, over>>
PCreq(s) ==
    /\ C(E2, "stop_disturbed", Expired)
    /\ kill' = TRUE /\ svc' = [svc EXCEPT ![s].pcreq = @ + 1]
    /\ UNCHANGED <<cfg, ph, now, grp, bat, bgs, waiters, causes, tint, over>>

Bg(x) == /\ bgs' = MapSet(bgs, x, [st |-> "run", creq |-> 0])
         /\ UNCHANGED <<cfg, ph, now, svc, grp, bat, waiters, causes, tint, kill, over>>
BgEnd(x) == /\ bgs[x].st = "run" /\ bgs' = [bgs EXCEPT ![x].st = "done"]
            /\ UNCHANGED <<cfg, ph, now, svc, grp, bat, waiters, causes, tint, kill, over>>
Stopped == /\ 0 \in DOMAIN bat /\ bat[0].ever /\ Live = {}
           /\ \A s \in DOMAIN svc : svc[s].stop # "run"
BgCreq(x) ==
    /\ C(E2, "foreign_task_cancelled", Owner)
    /\ C(E2, "task_cancelled_before_services_stopped", Stopped \/ K)
    /\ bgs' = [bgs EXCEPT ![x].creq = @ + 1]
    /\ UNCHANGED <<cfg, ph, now, svc, grp, bat, waiters, causes, tint, kill, over>>
MainCreq ==
    /\ C(E2, "body_cancelled_without_reason", Owner /\ tint >= 0 /\ (Stopped \/ K))
    /\ UNCHANGED vars

Wait(w) == /\ waiters' = waiters \cup {w}
           /\ UNCHANGED <<cfg, ph, now, svc, grp, bat, bgs, causes, tint, kill, over>>
Closed(w) == /\ C(E2, "closing_released_too_early", ph \in {"stopping", "exited"})
             /\ waiters' = waiters \ {w}
             /\ UNCHANGED <<cfg, ph, now, svc, grp, bat, bgs, causes, tint, kill, over>>

Exit70(fin) == /\ C(E2, "aborted_without_reason", Expired)
          /\ kill' = TRUE /\ causes' = causes \cup {"exit70"} /\ over' = fin
          /\ UNCHANGED <<cfg, ph, now, svc, grp, bat, bgs, waiters, tint>>
\* a loop which is not owned is stopped by the interrupt
LoopStop == /\ C(E2, "loop_stopped_too_early", tint >= 0 /\ Stopped)
            /\ over' = TRUE
            /\ UNCHANGED <<cfg, ph, now, svc, grp, bat, bgs, waiters, causes, tint, kill>>
Exited(k, s, ctx) ==
    /\ C(E2, "exited_twice", ph = "stopping")
    /\ C(E2, "service_not_stopped", Live = {})
    /\ C(E2, "start_left_running", Running = {})
    /\ C(E2, "exited_while_stopping", ((Stopped /\ bat[0].st = "done") \/ K) /\ \A x \in DOMAIN svc : svc[x].stop # "run")
    /\ C(E2, "hooks_not_called", 0 \in DOMAIN bat)
    /\ C(E2, "background_task_survived", Owner => \A x \in DOMAIN bgs : bgs[x].st = "done")
    /\ C(E2, "context_not_released", ctx)
    /\ C(E2, "exit_failed", k = "raise" => svc[s].stop = "done")
    /\ C(E2, "strange_outcome", k \in {"ok", "raise"})
    /\ ph' = "exited" /\ over' = TRUE
    /\ UNCHANGED <<cfg, now, svc, grp, bat, bgs, waiters, causes, tint, kill>>

GroupOK(g) ==
    LET G == grp[g] IN
    /\ C(E1, "hook_not_called", G.pre # "no")
    /\ C(E1, "not_started", G.pre = "done" => \A s \in G.ss : svc[s].st # "new")
    /\ C(E1, "post_start_not_called",
         G.pre = "done" /\ (Sure(g) # {} \/ \A s \in G.ss : Ready(s) \/ svc[s].amb) => G.post # "no")
    /\ C(E1, "no_outcome", G.st = "run" => G.post # "done")
BatchOK(b) ==
    LET B == bat[b] IN
    /\ C(E2, "hook_not_called", b # 0 => B.pre # "no")
    /\ C(E2, "not_stopped", B.pre = "done" => \A s \in B.ss : svc[s].stop # "no")
    /\ C(E2, "post_stop_not_called", B.pre = "done" /\ (\A s \in B.ss : svc[s].stop = "done") => B.post # "no")
IdleOK == over \/
    /\ \A g \in DOMAIN grp : ph \in {"entering", "entered"} => GroupOK(g)
    /\ \A b \in DOMAIN bat : BatchOK(b)
    /\ ph = "stopping" =>
         /\ C(E2, "start_not_cancelled", \A s \in Running : svc[s].creq > 0)
         /\ C(E2, "no_shutdown", Running = {} => 0 \in DOMAIN bat)
         /\ C(E2, "closing_not_released", waiters = {})
         /\ C(E2, "background_task_not_cancelled", Owner /\ Stopped /\ bat[0].st = "done" => \A x \in DOMAIN bgs : bgs[x].st = "run" => bgs[x].creq > 0)
         /\ C(E2, "no_exit", ~(Running = {} /\ Stopped /\ bat[0].st = "done" /\ (Owner => \A x \in DOMAIN bgs : bgs[x].st = "done")))
         /\ C(E2, "not_aborted", Expired /\ causes = {"intr"} => \A s \in DOMAIN svc : (svc[s].stop = "run" /\ ~svc[s].late) => svc[s].pcreq > 0)
    /\ C(E2, "waiter_lost", TRUE)
Idle == /\ IdleOK
        /\ svc' = [s \in DOMAIN svc |-> [svc[s] EXCEPT !.fresh = FALSE]]
        /\ kill' = (kill \/ Expired)
        /\ UNCHANGED <<cfg, ph, now, grp, bat, bgs, waiters, causes, tint, over>>
Adv(t) == now' = t /\ UNCHANGED <<cfg, ph, svc, grp, bat, bgs, waiters, causes, tint, kill, over>>

AsSet(q) == {q[i] : i \in 1..Len(q)}
Step(ev) ==
    CASE ev.e = "enter" -> Enter(AsSet(ev.ss))
      [] ev.e = "dstart" -> DStart(ev.g, AsSet(ev.ss))
      [] ev.e = "dstop" -> DStop(ev.b, AsSet(ev.ss))
      [] ev.e = "sbegin" -> SBegin(ev.s, ev.ok)
      [] ev.e = "sev" -> SEv(ev.s)
      [] ev.e = "send" -> SEnd(ev.s, ev.k)
      [] ev.e = "screq" -> SCreq(ev.s)
      [] ev.e = "hook" -> Hook(ev.h, ev.a, ev.g, AsSet(ev.ss))
      [] ev.e = "entered" -> Entered(ev.k, ev.s)
      [] ev.e = "dstarted" -> DStarted(ev.g, ev.k, ev.s)
      [] ev.e = "dstopped" -> DStopped(ev.b)
      [] ev.e = "exit" -> Exit(ev.k)
      [] ev.e = "intr" -> Intr
      [] ev.e = "pbegin" -> PBegin(ev.s, ev.x)
      [] ev.e = "pend" -> PEnd(ev.s, ev.k)
      [] ev.e = "pcreq" -> PCreq(ev.s)
      [] ev.e = "bg" -> Bg(ev.x)
      [] ev.e = "bgend" -> BgEnd(ev.x)
      [] ev.e = "bgcreq" -> BgCreq(ev.x)
      [] ev.e = "maincreq" -> MainCreq
      [] ev.e = "wait" -> Wait(ev.w)
      [] ev.e = "closed" -> Closed(ev.w)
      [] ev.e = "exit70" -> Exit70(ev.fin)
      [] ev.e = "loopstop" -> LoopStop
      [] ev.e = "exited" -> Exited(ev.k, ev.s, ev.ctx)
      [] ev.e = "idle" -> Idle
      [] ev.e = "adv" -> Adv(ev.t)
      [] OTHER -> C(E1, "unexpected_" \o ev.e, FALSE) /\ C(E2, "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

\* what the clauses are meant to guarantee
AllStoppedAtExit == ph = "exited" => \A s \in DOMAIN svc : svc[s].st # "new" => svc[s].stop = "done" /\ svc[s].st = "ended"
ReadyWhenEntered == ph = "entered" => \A s \in grp[0].ss : svc[s].st # "new" /\ (svc[s].ev \/ svc[s].st = "ended")
=============================================================================
