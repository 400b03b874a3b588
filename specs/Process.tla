------------------------------ MODULE Process ------------------------------
(* ProcessService and RespawningProcessService.  Children are numbered in the order they are started.

   Environment:  start  stop                  start() and stop() are called
                 boot(p) the child begins to run its code     over(p,k) its hook ends (k: ok, raise)      dead(p) the child is gone
   System:       spawn(p)  a child is started (the supervisor may do so until it is stopped)          up(p)  it says it is up            hook(p,x) its hook is called (x: as asked)
                 fin(p)    it says its hook has ended    sigint(p)  it is asked to end      kill(p) it is killed
                 started(r), stopped(r)   start(), stop() have ended (r: ok, error, cancelled)
   cfg: [resp: respawning, poll: its poll timeout, tmo: the stop timeout]                                                     *)
EXTENDS Clauses
VARIABLES cfg, now, procs, st, run, tsig
vars == <<cfg, now, procs, st, run, tsig>>
N == "V01"
\* st: new, up (start() was called), stopping, down;  run: start() "goes" on, is "done", has "failed"
InitWith(c) == cfg = c /\ now = 0 /\ procs = EmptyMap /\ st = "new" /\ run = "none" /\ tsig = -1
Grace == 5000       \* how long a start may take to notice that its child has died
\* c: spawn, boot, up, hook, over, fin (what the child has done);  alive;  td: when it died;  sig: asked to end
New == [c |-> "spawn", alive |-> TRUE, td |-> 0, sig |-> FALSE, killed |-> FALSE]
Cur == Cardinality(DOMAIN procs)
Set(p, x) == procs' = MapSet(procs, p, x)
Known(p) == p \in DOMAIN procs
WasUp(p) == procs[p].c \in {"up", "hook", "over", "fin"}
Done(p) == procs[p].c = "fin"

Start == /\ st = "new" /\ st' = "up" /\ run' = "goes" /\ UNCHANGED <<cfg, now, procs, tsig>>
Spawn(p) ==
    /\ C(N, "two_at_once", \A q \in DOMAIN procs : ~procs[q].alive)
    /\ C(N, "spawned_after_stop", st = "up" \/ (st = "stopping" /\ cfg.resp /\ tsig < 0))
    /\ C(N, "spawned_needlessly", Cur = 0 \/ (cfg.resp /\ run = "done"))
    /\ ~Known(p) /\ Set(p, New) /\ UNCHANGED <<cfg, now, st, run, tsig>>
Boot(p) == Known(p) /\ procs[p].c = "spawn" /\ procs[p].alive /\ Set(p, [procs[p] EXCEPT !.c = "boot"]) /\ UNCHANGED <<cfg, now, st, run, tsig>>
Up(p) == /\ Known(p) /\ procs[p].c = "boot" /\ Set(p, [procs[p] EXCEPT !.c = "up"]) /\ UNCHANGED <<cfg, now, st, run, tsig>>
Hook(p, x) == /\ C(N, "hook_wrong", x)
              /\ C(N, "hook_again", procs[p].c = "up")
              /\ Set(p, [procs[p] EXCEPT !.c = "hook"]) /\ UNCHANGED <<cfg, now, st, run, tsig>>
Over(p, k) == Known(p) /\ procs[p].c = "hook" /\ procs[p].alive /\ Set(p, [procs[p] EXCEPT !.c = "over"]) /\ UNCHANGED <<cfg, now, st, run, tsig>>
Fin(p) == /\ C(N, "end_told_too_early", procs[p].c = "over")
          /\ Set(p, [procs[p] EXCEPT !.c = "fin"]) /\ UNCHANGED <<cfg, now, st, run, tsig>>
Dead(p) == Known(p) /\ procs[p].alive /\ Set(p, [procs[p] EXCEPT !.alive = FALSE, !.td = now]) /\ UNCHANGED <<cfg, now, st, run, tsig>>
Sigint(p) == /\ C(N, "signal_before_stop", st = "stopping")
             /\ C(N, "signal_to_wrong_process", Known(p) /\ procs[p].alive)
             /\ Known(p) /\ Set(p, [procs[p] EXCEPT !.sig = TRUE]) /\ tsig' = (IF tsig < 0 THEN now ELSE tsig)
             /\ UNCHANGED <<cfg, now, st, run>>
Kill(p) == /\ C(N, "killed_before_stop", st = "stopping")
           /\ C(N, "killed_too_early", Known(p) /\ procs[p].sig /\ now >= tsig + cfg.tmo)
           /\ Known(p) /\ Set(p, [procs[p] EXCEPT !.killed = TRUE]) /\ UNCHANGED <<cfg, now, st, run, tsig>>
Started(r) ==
    /\ C(N, "started_before_child_is_up", r = "ok" => (Cur > 0 /\ WasUp(Cur)))
    /\ C(N, "start_failed", r = "error" => (Cur > 0 /\ (~procs[Cur].alive \/ st # "up")))
    /\ C(N, "start_cancelled", r = "cancelled" => st # "up")
    /\ run = "goes" /\ run' = (IF r = "ok" THEN "done" ELSE "failed") /\ UNCHANGED <<cfg, now, procs, st, tsig>>
Stop == st = "up" /\ st' = "stopping" /\ UNCHANGED <<cfg, now, procs, run, tsig>>
Stopped(r) ==
    /\ C(N, "stop_failed", r = "ok")
    /\ C(N, "child_left", \A p \in DOMAIN procs : ~procs[p].alive)
    /\ st = "stopping" /\ st' = "down" /\ UNCHANGED <<cfg, now, procs, run, tsig>>
Adv(t) == now' = t /\ UNCHANGED <<cfg, procs, st, run, tsig>>

Late(p) == now >= procs[p].td + (IF WasUp(p) THEN 0 ELSE Grace) + cfg.poll
IdleOK ==
    /\ C(N, "no_child", (run = "goes" /\ st = "up") => Cur > 0)
    /\ C(N, "child_hindered", \A p \in DOMAIN procs : procs[p].c \notin {"boot", "up", "over"} \/ ~procs[p].alive)
    /\ C(N, "start_hangs", (run = "goes" /\ Cur > 0) =>
              IF procs[Cur].alive THEN ~WasUp(Cur) ELSE (~WasUp(Cur) /\ now < procs[Cur].td + Grace))
    /\ C(N, "not_respawned", (cfg.resp /\ run = "done" /\ st = "up" /\ ~procs[Cur].alive) => ~Late(Cur))
    /\ C(N, "not_asked_to_end", (st = "stopping" /\ Cur > 0 /\ procs[Cur].alive) => procs[Cur].sig)
    /\ C(N, "stop_hangs", st = "stopping" =>
              /\ Cur > 0 /\ (procs[Cur].sig)
              /\ now < tsig + 2 * cfg.tmo
              /\ (now >= tsig + cfg.tmo => procs[Cur].alive /\ Done(Cur))
              /\ (Done(Cur) => procs[Cur].alive))
Idle == IdleOK /\ UNCHANGED vars

Step(ev) ==
    CASE ev.e = "start" -> Start
      [] ev.e = "spawn" -> Spawn(ev.p)
      [] ev.e = "boot" -> Boot(ev.p)
      [] ev.e = "up" -> Up(ev.p)
      [] ev.e = "hook" -> Hook(ev.p, ev.x)
      [] ev.e = "over" -> Over(ev.p, ev.k)
      [] ev.e = "fin" -> Fin(ev.p)
      [] ev.e = "dead" -> Dead(ev.p)
      [] ev.e = "sigint" -> Sigint(ev.p)
      [] ev.e = "kill" -> Kill(ev.p)
      [] ev.e = "started" -> Started(ev.r)
      [] ev.e = "stop" -> Stop
      [] ev.e = "stopped" -> Stopped(ev.r)
      [] ev.e = "adv" -> Adv(ev.t)
      [] ev.e = "idle" -> Idle
      [] OTHER -> C(N, "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars
\* what the clauses are meant to guarantee
OneChild == Cardinality({p \in DOMAIN procs : procs[p].alive}) <= 1
DownIsDown == st = "down" => \A p \in DOMAIN procs : ~procs[p].alive
=============================================================================
