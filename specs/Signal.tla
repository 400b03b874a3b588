------------------------------- MODULE Signal -------------------------------
(* aiomisc.signal.Signal: receivers, freezing, copies, calls.

   Environment: connect(s,r,how) disconnect(s,r) freeze(s) copy(s,n) call(c,s)
                end(c,r,k) cancel(c)
   System:      changed(ok) frozen(s,b) recv(c,r,same) ret(c,k,r)

   r: a receiver;  k: "ok", "raise" or "cancelled" (ret: r is the raiser).
   connect of something that is not a coroutine function has how = "bad".      *)
EXTENDS Clauses

VARIABLES cfg, sig,    \* signal -> [recv, frozen]
          calls,       \* call -> [s, must, may, done, cur, st, k, r, cxl]
          last         \* did the last change have to be refused

vars == <<cfg, sig, calls, last>>

InitWith(c) == /\ cfg = c /\ sig = (1 :> [recv |-> {}, frozen |-> FALSE]) /\ calls = EmptyMap /\ last = TRUE

\* while a call of s is under way, new receivers may join and gone ones may still be called
Touch(s, add, del) ==
    calls' = [c \in DOMAIN calls |->
        IF calls[c].st # "run" \/ calls[c].s # s THEN calls[c]
        ELSE [calls[c] EXCEPT !.must = @ \ del, !.may = @ \cup add \cup (calls[c].must \cap del)]]

Connect(s, r, how) ==
    /\ last' = (~sig[s].frozen /\ how # "bad")
    /\ IF last' /\ r \notin sig[s].recv
       THEN /\ sig' = [sig EXCEPT ![s].recv = @ \cup {r}]
            /\ Touch(s, {r}, {})
       ELSE UNCHANGED <<sig, calls>>
    /\ UNCHANGED cfg
Disconnect(s, r) ==
    /\ last' = ~sig[s].frozen
    /\ IF last' THEN /\ sig' = [sig EXCEPT ![s].recv = @ \ {r}]
                     /\ Touch(s, {}, {r})
       ELSE UNCHANGED <<sig, calls>>
    /\ UNCHANGED cfg
Changed(ok) == C("G01", IF last THEN "change_refused" ELSE "frozen_or_bad_accepted", ok = last) /\ UNCHANGED vars
Freeze(s) == sig' = [sig EXCEPT ![s].frozen = TRUE] /\ UNCHANGED <<cfg, calls, last>>
Copy(s, n) == sig' = MapSet(sig, n, [recv |-> sig[s].recv, frozen |-> FALSE]) /\ UNCHANGED <<cfg, calls, last>>
Frozen(s, b) == C("G01", "frozen_state", b = sig[s].frozen) /\ UNCHANGED vars

Call(c, s) == /\ c \notin DOMAIN calls
              /\ calls' = MapSet(calls, c, [s |-> s, must |-> sig[s].recv, may |-> {}, done |-> {}, cur |-> 0,
                                            st |-> "run", k |-> "ok", r |-> 0, cxl |-> FALSE])
              /\ UNCHANGED <<cfg, sig, last>>
Cancel(c) == /\ calls[c].st = "run" /\ calls' = [calls EXCEPT ![c].cxl = TRUE] /\ UNCHANGED <<cfg, sig, last>>
End(c, r, k) == /\ calls[c].cur = r
                /\ calls' = [calls EXCEPT ![c].cur = 0, ![c].k = k, ![c].r = IF k = "ok" THEN 0 ELSE r]
                /\ UNCHANGED <<cfg, sig, last>>

Recv(c, r, same) ==
    /\ C("G01", "arguments_changed", same)
    /\ C("G01", "not_one_after_another", calls[c].cur = 0)
    /\ C("G01", "receiver_called_twice", r \notin calls[c].done)
    /\ C("G01", "not_a_receiver", r \in calls[c].must \cup calls[c].may)
    /\ C("G01", "called_after_failure", calls[c].k = "ok" /\ calls[c].st = "run")
    /\ calls' = [calls EXCEPT ![c].cur = r, ![c].done = @ \cup {r}]
    /\ UNCHANGED <<cfg, sig, last>>
Ret(c, k, r) ==
    /\ C("G01", "second_outcome", calls[c].st = "run")
    /\ C("G01", "returned_while_receiver_runs", calls[c].cur = 0)
    /\ C("G01", "wrong_outcome",
         IF k = "cancelled" THEN calls[c].cxl ELSE k = calls[c].k /\ r = calls[c].r)
    /\ C("G01", "receiver_not_called", k = "ok" => calls[c].must \subseteq calls[c].done)
    /\ calls' = [calls EXCEPT ![c].st = "done"]
    /\ UNCHANGED <<cfg, sig, last>>

IdleOK == /\ C("G01", "no_progress", \A c \in DOMAIN calls : calls[c].st = "run" => calls[c].cur # 0)
          /\ C("G01", "cancellation_ignored", \A c \in DOMAIN calls : calls[c].st = "run" => ~calls[c].cxl)
Idle == IdleOK /\ UNCHANGED vars

Step(ev) ==
    CASE ev.e = "connect" -> Connect(ev.s, ev.r, ev.how)
      [] ev.e = "disconnect" -> Disconnect(ev.s, ev.r)
      [] ev.e = "changed" -> Changed(ev.ok)
      [] ev.e = "freeze" -> Freeze(ev.s)
      [] ev.e = "copy" -> Copy(ev.s, ev.n)
      [] ev.e = "frozen" -> Frozen(ev.s, ev.b)
      [] ev.e = "call" -> Call(ev.c, ev.s)
      [] ev.e = "cancel" -> Cancel(ev.c)
      [] ev.e = "end" -> End(ev.c, ev.r, ev.k)
      [] ev.e = "recv" -> Recv(ev.c, ev.r, ev.same)
      [] ev.e = "ret" -> Ret(ev.c, ev.k, ev.r)
      [] ev.e = "idle" -> Idle
      [] ev.e = "adv" -> UNCHANGED vars
      [] OTHER -> C("G01", "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

FrozenStays == [][\A s \in DOMAIN sig : sig[s].frozen => sig'[s] = sig[s]]_vars
\* changing one signal leaves the others alone
Isolated == [][Cardinality({s \in DOMAIN sig : sig'[s] # sig[s]}) <= 1]_vars
=============================================================================
