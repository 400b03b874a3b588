--------------------------- MODULE CircuitBreaker ---------------------------
(* aiomisc.CircuitBreaker and cutout (aiomisc/circuit_breaker.py).

   Environment: call(c,r) end(c,k,n,id) adv
   System:      run(c,same,st) ret(c,k,n,id,st)

   r is the uniform draw (in millionths) that call gets if it needs one; st the
   state property, read right after.  A call ends with k = "ok", "raise" (an
   exception of class n) or "cancelled".  Times are multiples of 125 ms.       *)
EXTENDS Clauses

VARIABLES cfg,    \* [resp, broken, passing, recovery, ratio (in 1/100), n (slots), exc, ignored]
          now,
          st,     \* "PASSING", "BROKEN", "RECOVERING"
          until,  \* no change of state before
          recAt,  \* start of the current recovery
          slots,  \* recorded time slots, oldest first: [slot, fail, total]
          epoch,  \* number of times the slots were dropped
          last,   \* identity of the last failure, 0: none
          calls, cnt

vars == <<cfg, now, st, until, recAt, slots, epoch, last, calls, cnt>>

Sub(n) == CASE n = "A" -> {"A", "B"} [] n = "Exception" -> {"A", "B", "C"} [] OTHER -> {n}
Listed == UNION {Sub(n) : n \in Range(cfg.exc)}

InitWith(c) ==
    /\ cfg = c /\ now = 0 /\ st = "PASSING" /\ until = 0 /\ recAt = 0 /\ slots = <<>>
    /\ epoch = 0 /\ last = 0 /\ calls = EmptyMap
    /\ cnt = [count |-> 0, passing |-> 0, broken |-> 0, recovering |-> 0, rok |-> 0, rfail |-> 0]

\* millionths of 2^(k/32) - 1
Pow == <<0, 21897, 44273, 67140, 90507, 114386, 138788, 163724, 189207, 215247, 241857, 269050,
         296839, 325236, 354255, 383909, 414213, 445180, 476826, 509164, 542210, 575980, 610490,
         645755, 681792, 718619, 756252, 794709, 834008, 874167, 915206, 957144>>
\* 1 + draw < 2 ^ (elapsed / recovery_time); no draw equals an entry of the table
Admitted(r) == LET k == ((now - recAt) * 32) \div cfg.recovery
               IN k >= 32 \/ (k > 0 /\ r <= Pow[k + 1])

CurSlot == now \div (cfg.resp \div cfg.n)
Recorded == IF slots # <<>> /\ slots[Len(slots)].slot = CurSlot THEN slots
            ELSE LET s == Append(slots, [slot |-> CurSlot, fail |-> 0, total |-> 0])
                 IN IF Len(s) > cfg.n THEN Tail(s) ELSE s
Window(s) == {i \in DOMAIN s : s[i].slot >= CurSlot - cfg.n}
Bad(x) == x.total > 0 /\ x.fail * 100 >= cfg.ratio * x.total
BadCount(s) == Cardinality({i \in Window(s) : Bad(s[i])})
AllBad(s) == BadCount(s) = Cardinality(Window(s))
\* the share of bad slots reaches half of the error ratio
Relapse(s) == BadCount(s) * 200 >= cfg.ratio * Cardinality(Window(s))

\* The state a call finds: <<state, until, recAt, drop the slots>>
NextState(s) ==
    IF now < until THEN <<st, until, recAt, FALSE>>
    ELSE CASE st = "BROKEN" -> <<"RECOVERING", until, now, FALSE>>
           [] st = "PASSING" ->
                IF Len(s) = cfg.n /\ AllBad(s) THEN <<"BROKEN", now + cfg.broken, recAt, TRUE>>
                ELSE <<st, until, recAt, FALSE>>
           [] st = "RECOVERING" ->
                IF Relapse(s) THEN <<"BROKEN", now + cfg.broken, recAt, TRUE>>
                ELSE IF now - recAt >= cfg.recovery THEN <<"PASSING", now + cfg.passing, recAt, FALSE>>
                ELSE <<st, until, recAt, FALSE>>

Call(c, r) ==
    /\ c \notin DOMAIN calls
    /\ LET s == Recorded
           x == NextState(s)
       IN /\ st' = x[1] /\ until' = x[2] /\ recAt' = x[3]
          /\ slots' = IF x[4] THEN <<>> ELSE s
          /\ epoch' = IF x[4] THEN epoch + 1 ELSE epoch
          /\ calls' = MapSet(calls, c, [st |-> "in", r |-> r, epoch |-> IF x[4] THEN -1 ELSE epoch,
                                        slot |-> CurSlot, k |-> "", n |-> "", id |-> 0])
          /\ cnt' = [cnt EXCEPT !.count = @ + 1, !.passing = @ + (IF x[1] = "PASSING" THEN 1 ELSE 0),
                                !.broken = @ + (IF x[1] = "BROKEN" THEN 1 ELSE 0),
                                !.recovering = @ + (IF x[1] = "RECOVERING" THEN 1 ELSE 0)]
    /\ UNCHANGED <<cfg, now, last>>

End(c, k, n, id) ==
    /\ calls[c].st = "run"
    /\ LET fail == IF k = "raise" /\ n \in Listed /\ n \notin Range(cfg.ignored) THEN 1 ELSE 0
       IN slots' = IF calls[c].epoch # epoch THEN slots
                   ELSE [i \in DOMAIN slots |->
                           IF slots[i].slot # calls[c].slot THEN slots[i]
                           ELSE [slots[i] EXCEPT !.fail = @ + fail, !.total = @ + 1]]
    /\ last' = CASE k = "ok" -> 0 [] k = "raise" /\ n \in Listed -> id [] OTHER -> last
    /\ calls' = [calls EXCEPT ![c].st = "end", ![c].k = k, ![c].n = n, ![c].id = id]
    /\ UNCHANGED <<cfg, now, st, until, recAt, epoch, cnt>>

Adv(t) == /\ t >= now /\ now' = t
          /\ UNCHANGED <<cfg, st, until, recAt, slots, epoch, last, calls, cnt>>

\* ----------------------------------------------------------------- system
Run(c, same, s) ==
    /\ C("K01", "arguments_changed", same)
    /\ C("K01", "function_called_twice", calls[c].st = "in")
    /\ C("K02", "wrong_state", s = st)
    /\ C("K01", "called_while_broken", st # "BROKEN")
    /\ C("K01", "admitted_against_draw", st = "RECOVERING" => Admitted(calls[c].r))
    /\ calls' = [calls EXCEPT ![c].st = "run"]
    /\ cnt' = IF st = "RECOVERING" THEN [cnt EXCEPT !.rok = @ + 1] ELSE cnt
    /\ UNCHANGED <<cfg, now, st, until, recAt, slots, epoch, last>>

Ret(c, k, n, id, s) ==
    /\ C("K01", "second_outcome", calls[c].st # "done")
    /\ C("K02", "wrong_state", s = st)
    /\ IF calls[c].st = "in"
       THEN /\ C("K01", "not_let_through",
                 k = "broken" /\ (st = "BROKEN" \/ (st = "RECOVERING" /\ ~Admitted(calls[c].r))))
            /\ C("K01", "wrong_last_exception", id = last)
            /\ cnt' = IF st = "RECOVERING" THEN [cnt EXCEPT !.rfail = @ + 1] ELSE cnt
       ELSE /\ C("K01", "wrong_outcome", calls[c].st = "end" /\ k = calls[c].k /\ n = calls[c].n /\ id = calls[c].id)
            /\ UNCHANGED cnt
    /\ calls' = [calls EXCEPT ![c].st = "done"]
    /\ UNCHANGED <<cfg, now, st, until, recAt, slots, epoch, last>>

IdleOK == \A c \in DOMAIN calls : C("K01", "no_outcome", calls[c].st \in {"run", "done"})

Idle(s) ==
    /\ IdleOK
    /\ C("T01", "call_count", s.call_count = cnt.count)
    /\ C("T01", "call_passing", s.call_passing = cnt.passing)
    /\ C("T01", "call_broken", s.call_broken = cnt.broken)
    /\ C("T01", "call_recovering", s.call_recovering = cnt.recovering)
    /\ C("T01", "call_recovering_ok", s.call_recovering_ok = cnt.rok)
    /\ C("T01", "call_recovering_failed", s.call_recovering_failed = cnt.rfail)
    /\ C("T01", "error_ratio_threshold", s.error_ratio_threshold = cfg.ratio)
    /\ UNCHANGED vars

Step(ev) ==
    CASE ev.e = "call" -> Call(ev.c, ev.r)
      [] ev.e = "end" -> End(ev.c, ev.k, ev.n, ev.id)
      [] ev.e = "adv" -> Adv(ev.t)
      [] ev.e = "run" -> Run(ev.c, ev.same, ev.st)
      [] ev.e = "ret" -> Ret(ev.c, ev.k, ev.n, ev.id, ev.st)
      [] ev.e = "idle" -> Idle(ev.s)
      [] OTHER -> C("K01", "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

\* ------------------------------------------------- properties of the design
\* The only changes of state, with their times and reasons
Changes ==
    [][st' # st =>
        \/ st = "PASSING" /\ st' = "BROKEN" /\ now >= until /\ Len(Recorded) = cfg.n
        \/ st = "BROKEN" /\ st' = "RECOVERING" /\ now >= until
        \/ st = "RECOVERING" /\ st' = "BROKEN" /\ now >= recAt
        \/ st = "RECOVERING" /\ st' = "PASSING" /\ now - recAt >= cfg.recovery]_vars
BrokenHasUntil == st = "BROKEN" => \A c \in DOMAIN calls : calls[c].st = "run" => calls[c].epoch < epoch
SlotsBounded == /\ Len(slots) <= cfg.n
                /\ \A i, j \in DOMAIN slots : i < j => slots[i].slot < slots[j].slot
                /\ \A i \in DOMAIN slots : slots[i].fail <= slots[i].total
LastIsFailure == last # 0 => \E c \in DOMAIN calls : calls[c].id = last
=============================================================================
