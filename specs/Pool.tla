-------------------------------- MODULE Pool --------------------------------
(* aiomisc.PoolBase: bounded pool of checked instances (aiomisc/pool.py).

   Environment (the user of the pool and the user's callbacks):
     acq(c) cancel(c) rel(c) createEnd checkEnd destroyEnd close adv
   System (the pool itself):
     createStart checkStart destroyStart acqOk acqFail acqCancelled
     createCancelled checkCancelled destroyCancelled closeDone
   idle: a quiescent point - nothing can run until the environment acts or time
   passes, hence every obligation of the pool must have been discharged.      *)
EXTENDS Clauses

VARIABLES cfg,       \* [maxsize, recycle]; recycle = 0: instances never age out
          now, 
          inst,      \* instance id -> [st, born]
          acq,       \* client -> [st, i, cxl]
          creating,  \* ids of running _create_instance calls
          fails,     \* creation failures a client may still report
          closing,   \* "no", "closing", "closed"
          closeBy    \* instant at which close(timeout) gives up, -1: never

vars == <<cfg, now, inst, acq, creating, fails, closing, closeBy>>

Usable == {i \in DOMAIN inst : inst[i].st \in {"free", "checking", "checked", "held"}}
Ready  == {i \in DOMAIN inst : inst[i].st \in {"free", "checked"}}
InSt(s) == {i \in DOMAIN inst : inst[i].st = s}
Waiting == {c \in DOMAIN acq : acq[c].st = "wait"}
Pending == {c \in Waiting : ~acq[c].cxl}
NoClient == [st |-> "none", i |-> 0, cxl |-> FALSE]
Cl(c) == IF c \in DOMAIN acq THEN acq[c] ELSE NoClient
St(i) == IF i \in DOMAIN inst THEN inst[i].st ELSE "unknown"
SetSt(i, s) == inst' = MapSet(inst, i, [st |-> s, born |-> IF i \in DOMAIN inst THEN inst[i].born ELSE now])

InitWith(c) ==
    /\ cfg = c
    /\ now = 0 /\ inst = EmptyMap /\ acq = EmptyMap /\ creating = {} /\ fails = 0
    /\ closing = "no" /\ closeBy = -1

\* ------------------------------------------------------------ environment
Acq(c) ==
    /\ Cl(c).st = "none" /\ closing = "no"
    /\ acq' = MapSet(acq, c, [st |-> "wait", i |-> 0, cxl |-> FALSE])
    /\ UNCHANGED <<cfg, now, inst, creating, fails, closing, closeBy>>

Cancel(c) ==
    /\ Cl(c).st = "wait"
    /\ acq' = [acq EXCEPT ![c].cxl = TRUE]
    /\ UNCHANGED <<cfg, now, inst, creating, fails, closing, closeBy>>

CreateEnd(k, i, ok) ==
    /\ k \in creating /\ i \notin DOMAIN inst
    /\ creating' = creating \ {k}
    /\ IF ok THEN SetSt(i, "free") /\ UNCHANGED fails
             ELSE /\ fails' = fails + 1 /\ UNCHANGED inst
    /\ UNCHANGED <<cfg, now, acq, closing, closeBy>>

CheckEnd(i, r) ==
    /\ St(i) = "checking"
    /\ SetSt(i, IF r = "ok" THEN "checked" ELSE "discarded")
    /\ UNCHANGED <<cfg, now, acq, creating, fails, closing, closeBy>>

DestroyEnd(i) ==
    /\ St(i) = "destroying"
    /\ SetSt(i, "gone")
    /\ UNCHANGED <<cfg, now, acq, creating, fails, closing, closeBy>>

\* An instance given back is kept when it is younger than the recycle age, is
\* discarded when it is older than twice that age, and may go either way between.
Rel(c) ==
    /\ Cl(c).st = "held"
    /\ LET i == Cl(c).i
           age == now - inst[i].born
           keep == cfg.recycle = 0 \/ age <= 2 * cfg.recycle
           drop == cfg.recycle > 0 /\ age >= cfg.recycle
       IN IF St(i) # "held" THEN UNCHANGED inst
          ELSE \/ keep /\ SetSt(i, "free")
               \/ drop /\ SetSt(i, "discarded")
    /\ acq' = MapSet(acq, c, NoClient)
    /\ UNCHANGED <<cfg, now, creating, fails, closing, closeBy>>

Close(by) ==
    /\ closing = "no" /\ Waiting = {} /\ creating = {}
    /\ closing' = "closing" /\ closeBy' = by
    /\ UNCHANGED <<cfg, now, inst, acq, creating, fails>>

Adv(t) ==
    /\ t >= now
    /\ C("P02", "close_timeout_missed", (closing = "closing" /\ closeBy >= 0) => t <= closeBy)
    /\ now' = t
    /\ UNCHANGED <<cfg, inst, acq, creating, fails, closing, closeBy>>

\* ----------------------------------------------------------------- system
CreateStart(k) ==
    /\ C("P01", "capacity_exceeded", Cardinality(Usable) + Cardinality(creating) < cfg.maxsize)
    /\ C("P02", "create_without_demand", Waiting # {})
    /\ creating' = creating \cup {k}
    /\ UNCHANGED <<cfg, now, inst, acq, fails, closing, closeBy>>

CreateCancelled(k) ==
    /\ C("P02", "create_cancelled_by_nobody", \E c \in Waiting : acq[c].cxl)
    /\ creating' = creating \ {k}
    /\ UNCHANGED <<cfg, now, inst, acq, fails, closing, closeBy>>

CheckStart(i) ==
    /\ C("P01", "check_of_instance_not_available", i \in Ready)
    /\ C("P02", "check_without_demand", Waiting # {})
    /\ SetSt(i, "checking")
    /\ UNCHANGED <<cfg, now, acq, creating, fails, closing, closeBy>>

CheckCancelled(i) ==
    /\ C("P02", "check_cancelled_by_nobody", \E c \in Waiting : acq[c].cxl)
    /\ SetSt(i, "free") \/ SetSt(i, "discarded")
    /\ UNCHANGED <<cfg, now, acq, creating, fails, closing, closeBy>>

AcqOk(c, i) ==
    /\ Cl(c).st = "wait"
    /\ C("P01", "instance_lent_twice", St(i) # "held")
    /\ C("P01", "lent_after_discard", St(i) \notin {"discarded", "destroying", "gone", "unknown"})
    /\ C("P01", "lent_without_check", St(i) \notin {"free", "checking"})
    /\ SetSt(i, "held")
    /\ acq' = MapSet(acq, c, [st |-> "held", i |-> i, cxl |-> FALSE])
    /\ UNCHANGED <<cfg, now, creating, fails, closing, closeBy>>

AcqFail(c) ==
    /\ C("P02", "acquire_failed_without_create_failure", fails > 0)
    /\ fails' = Max(0, fails - 1)
    /\ acq' = MapSet(acq, c, NoClient)
    /\ UNCHANGED <<cfg, now, inst, creating, closing, closeBy>>

AcqCancelled(c) ==
    /\ C("P02", "acquire_cancelled_by_nobody", Cl(c).cxl)
    /\ acq' = MapSet(acq, c, NoClient)
    /\ fails' = Min(fails, Cardinality(Waiting \ {c}))   \* it may have been about to report one
    /\ UNCHANGED <<cfg, now, inst, creating, closing, closeBy>>

DestroyStart(i) ==
    /\ C("P01", "destroyed_twice", St(i) \notin {"destroying", "gone"})
    /\ C("P01", "destroyed_while_usable",
         St(i) = "discarded" \/ closing # "no" \/ St(i) \in {"destroying", "gone"})
    /\ SetSt(i, "destroying")
    /\ UNCHANGED <<cfg, now, acq, creating, fails, closing, closeBy>>

DestroyCancelled(i) ==
    /\ C("P02", "destroy_cancelled_by_nobody", closing # "no" /\ closeBy >= 0 /\ now >= closeBy)
    /\ SetSt(i, "gone")
    /\ UNCHANGED <<cfg, now, acq, creating, fails, closing, closeBy>>

CloseDone(r) ==
    /\ closing = "closing"
    /\ C("P02", "close_raised", r \in {"ok", "timeout"})
    /\ C("P02", "close_left_instances",
         r = "ok" => \A i \in DOMAIN inst : inst[i].st = "gone")
    /\ C("P02", "close_left_instances",
         \A i \in DOMAIN inst : inst[i].st \in {"gone", "destroying"})
    /\ C("P02", "close_timed_out_early", r = "timeout" => closeBy >= 0 /\ now >= closeBy)
    /\ closing' = "closed"
    /\ UNCHANGED <<cfg, now, inst, acq, creating, fails, closeBy>>

\* ------------------------------------------------------------- quiescence
IdleOK ==
    /\ C("P02", "capacity_leaked_or_waiter_starved",
         (closing = "no" /\ Cardinality(Pending) > Cardinality(creating) + Cardinality(InSt("checking")))
           => Ready = {} /\ Cardinality(Usable) + Cardinality(creating) >= cfg.maxsize)
    /\ C("P02", "cancelled_acquire_still_running", Waiting = Pending)
    /\ C("P02", "discarded_instance_not_destroyed", InSt("discarded") # {} => InSt("destroying") # {})
    /\ C("P02", "close_hangs", closing = "closing" => InSt("destroying") # {})

Idle(n) ==
    /\ IdleOK
    /\ C("P02", "len_wrong", closing = "no" => n = Cardinality(Usable))
    /\ UNCHANGED vars

Step(ev) ==
    CASE ev.e = "acq" -> Acq(ev.c)
      [] ev.e = "cancel" -> Cancel(ev.c)
      [] ev.e = "rel" -> Rel(ev.c)
      [] ev.e = "createEnd" -> CreateEnd(ev.k, ev.i, ev.ok)
      [] ev.e = "checkEnd" -> CheckEnd(ev.i, ev.r)
      [] ev.e = "destroyEnd" -> DestroyEnd(ev.i)
      [] ev.e = "close" -> Close(ev.by)
      [] ev.e = "adv" -> Adv(ev.t)
      [] ev.e = "createStart" -> CreateStart(ev.k)
      [] ev.e = "createCancelled" -> CreateCancelled(ev.k)
      [] ev.e = "checkStart" -> CheckStart(ev.i)
      [] ev.e = "checkCancelled" -> CheckCancelled(ev.i)
      [] ev.e = "acqOk" -> AcqOk(ev.c, ev.i)
      [] ev.e = "acqFail" -> AcqFail(ev.c)
      [] ev.e = "acqCancelled" -> AcqCancelled(ev.c)
      [] ev.e = "destroyStart" -> DestroyStart(ev.i)
      [] ev.e = "destroyCancelled" -> DestroyCancelled(ev.i)
      [] ev.e = "closeDone" -> CloseDone(ev.r)
      [] ev.e = "idle" -> Idle(ev.n)
      [] OTHER -> C("P02", "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

\* ------------------------------------------------- properties of the design
TypeOK ==
    /\ \A i \in DOMAIN inst : inst[i].st \in
          {"free", "checking", "checked", "held", "discarded", "destroying", "gone"}
    /\ \A c \in DOMAIN acq : acq[c].st \in {"none", "wait", "held"}
Capacity == Cardinality(Usable) + Cardinality(creating) <= cfg.maxsize
Exclusive == \A c, d \in DOMAIN acq :
    (c # d /\ acq[c].st = "held" /\ acq[d].st = "held") => acq[c].i # acq[d].i
HeldUsable == \A c \in DOMAIN acq :
    (acq[c].st = "held" /\ closing = "no") => St(acq[c].i) = "held"
ClosedEmpty == closing = "closed" => \A i \in DOMAIN inst : inst[i].st \in {"gone", "destroying"}
\* a live instance, once destroyed, never comes back
NoResurrection == [][\A i \in DOMAIN inst :
    inst[i].st \in {"destroying", "gone"} => inst'[i].st \in {"destroying", "gone"}]_vars
=============================================================================
