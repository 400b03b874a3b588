------------------------------ MODULE Aggregate ------------------------------
(* aiomisc.aggregate / aggregate_async (aiomisc/aggregate.py): calls with one
   argument are collected into batches which one call of the wrapped function
   serves.

   Environment: call(c) cancel(c) set(x,c,k) finish(x,k,n) adv
   System:      start(x,args,ex) fcancel(x) ret(c,k,v)

   c: a call, identified by its (distinct) argument;  x: an execution of the
   wrapped function, ex: the call in whose task it runs (0: none of them).
   The value produced by execution x for call c is x*1000+c; an exception
   raised by execution x is identified by x.                                  *)
EXTENDS Clauses

VARIABLES cfg,     \* [max, leeway, mode, stat]; max = 0: unlimited
          now,
          batch,   \* sequence of [calls, t0, fullAt, st, tries, x]
          cur,     \* index of the batch that still accepts calls, 0: none
          call,    \* call -> [b, cxl, k, v, ret]; k: outcome, "none" while undecided
          exec     \* execution -> [b, args, ex, st, k]

vars == <<cfg, now, batch, cur, call, exec>>

InitWith(c) == /\ cfg = c /\ now = 0 /\ batch = <<>> /\ cur = 0
               /\ call = EmptyMap /\ exec = EmptyMap

Due(b) == batch[b].t0 + cfg.leeway
Live(c) == ~call[c].cxl /\ ~call[c].ret
\* callers for whose sake a batch still has to be executed
Wanting(b) == {c \in Range(batch[b].calls) : Live(c) /\ call[c].k = "none"}
IsFull(b) == cfg.max > 0 /\ Len(batch[b].calls) >= cfg.max

\* ------------------------------------------------------------ environment
Open(b) == b > 0 /\ batch[b].st = "wait" /\ ~IsFull(b) /\ batch[b].tries = 0

NewCall(b) == [b |-> b, cxl |-> FALSE, k |-> "none", v |-> 0, ret |-> FALSE]

Call(c) ==
    /\ c \notin DOMAIN call
    /\ \/ /\ Open(cur) /\ now <= Due(cur)                                   \* joins
          /\ batch' = [batch EXCEPT ![cur].calls = Append(@, c),
                                    ![cur].fullAt = IF cfg.max > 0 /\ Len(batch[cur].calls) + 1 >= cfg.max
                                                    THEN now ELSE @]
          /\ call' = MapSet(call, c, NewCall(cur))
          /\ UNCHANGED cur
       \/ /\ IF Open(cur)                                                   \* starts a batch
             THEN now >= Due(cur) \/ \A d \in Range(batch[cur].calls) : call[d].cxl
             ELSE TRUE
          /\ batch' = Append(batch, [calls |-> <<c>>, t0 |-> now, st |-> "wait", tries |-> 0, x |-> 0,
                                     fullAt |-> IF cfg.max = 1 THEN now ELSE -1])
          /\ cur' = Len(batch) + 1
          /\ call' = MapSet(call, c, NewCall(Len(batch) + 1))
    /\ UNCHANGED <<cfg, now, exec>>

Cancel(c) ==
    /\ c \in DOMAIN call /\ ~call[c].ret
    /\ call' = [call EXCEPT ![c].cxl = TRUE]
    /\ UNCHANGED <<cfg, now, batch, cur, exec>>

Value(x, c) == x * 1000 + c

\* the function decides the outcome of one call (aggregate_async)
Set(x, c, k) ==
    /\ x \in DOMAIN exec /\ exec[x].st = "run"
    /\ call' = IF call[c].k = "none"
               THEN [call EXCEPT ![c].k = k, ![c].v = Value(x, c)] ELSE call
    /\ UNCHANGED <<cfg, now, batch, cur, exec>>

\* the function ends.  "ok": the first n calls get their value (aggregate);
\* calls left without outcome get ResultNotSetError; "exc": it raised.
Finish(x, k, n) ==
    /\ x \in DOMAIN exec /\ exec[x].st = "run"
    /\ LET args == exec[x].args
           pos(c) == CHOOSE i \in 1..Len(args) : args[i] = c
           \* a call whose caller is gone keeps what it has
           out(c) == IF k = "exc" THEN <<"exc", x>>
                     ELSE IF pos(c) <= n THEN <<"ok", Value(x, c)>> ELSE <<"notset", 0>>
       IN call' = [c \in DOMAIN call |->
                     IF c \in Range(args) /\ call[c].k = "none"
                     THEN [call[c] EXCEPT !.k = out(c)[1], !.v = out(c)[2]] ELSE call[c]]
    /\ exec' = [exec EXCEPT ![x].st = "done", ![x].k = k]
    /\ batch' = [batch EXCEPT ![exec[x].b].st = "done"]
    /\ UNCHANGED <<cfg, now, cur>>

Adv(t) == /\ t >= now /\ now' = t /\ UNCHANGED <<cfg, batch, cur, call, exec>>

\* ----------------------------------------------------------------- system
Start(x, args, ex) ==
    /\ C("A01", "empty_batch", Len(args) > 0)
    /\ C("A01", "unknown_argument", Range(args) \subseteq DOMAIN call)
    /\ IF Len(args) = 0 \/ ~(Range(args) \subseteq DOMAIN call)
       THEN UNCHANGED vars
       ELSE LET b == call[args[1]].b
                bc == batch[b].calls
            IN /\ C("A01", "batches_mixed", \A c \in Range(args) : call[c].b = b)
               /\ C("A01", "argument_twice", Cardinality(Range(args)) = Len(args))
               /\ C("A01", "argument_order", args = SelectSeq(bc, LAMBDA c : c \in Range(args)))
               /\ C("A01", "argument_lost", \A c \in Wanting(b) : c \in Range(args))
               /\ C("A01", "max_count_exceeded", cfg.max = 0 \/ Len(args) <= cfg.max)
               /\ C("A01", "executed_twice", batch[b].st = "wait")
               /\ C("A01", "executed_for_nobody",
                    batch[b].tries > 0 => \E c \in Range(args) : ~call[c].ret /\ call[c].k = "none")
               /\ C("A02", "started_at_wrong_time",
                    batch[b].tries > 0 \/ IF batch[b].fullAt >= 0 THEN now = batch[b].fullAt
                                          ELSE now = Due(b))
               /\ batch' = [batch EXCEPT ![b].st = "run", ![b].tries = @ + 1, ![b].x = x]
               /\ exec' = MapSet(exec, x, [b |-> b, args |-> args, ex |-> ex, st |-> "run", k |-> ""])
               /\ UNCHANGED <<cfg, now, cur, call>>

FCancel(x) ==
    /\ x \in DOMAIN exec /\ exec[x].st = "run"
    /\ LET ex == exec[x].ex
           b == exec[x].b
       IN /\ C("A02", "execution_cancelled_by_nobody",
               IF ex \in DOMAIN call THEN call[ex].cxl
               ELSE \A c \in Range(batch[b].calls) : call[c].cxl)
          /\ batch' = [batch EXCEPT ![b].st = "wait"]
          /\ exec' = [exec EXCEPT ![x].st = "cancelled"]
    /\ UNCHANGED <<cfg, now, cur, call>>

Ret(c, k, v) ==
    /\ c \in DOMAIN call
    /\ IF k = "cancelled"
       THEN C("A02", "caller_cancelled_by_nobody", call[c].cxl)
       ELSE /\ C("A01", "result_before_execution", call[c].k # "none")
            /\ C("A01", "wrong_outcome", call[c].k = k /\ call[c].v = v)
    /\ call' = [call EXCEPT ![c].ret = TRUE]
    /\ UNCHANGED <<cfg, now, batch, cur, exec>>

\* ------------------------------------------------------------- quiescence
IdleOK ==
    /\ C("A02", "batch_not_started", \A b \in DOMAIN batch :
            (batch[b].st = "wait" /\ Wanting(b) # {}) =>
                (batch[b].tries = 0 /\ batch[b].fullAt < 0 /\ now < Due(b)))
    /\ C("A02", "caller_not_answered", \A b \in DOMAIN batch :
            (batch[b].st # "run" /\ (batch[b].st = "done" \/ batch[b].tries > 0)) =>
                \A c \in Range(batch[b].calls) : (Live(c) => call[c].k = "none"))
    /\ C("A02", "cancelled_caller_not_answered", \A c \in DOMAIN call : call[c].cxl => call[c].ret)

Count(k) == Cardinality({x \in DOMAIN exec : exec[x].k = k})
Ended == Cardinality({x \in DOMAIN exec : exec[x].st # "run"})
Idle(s) == /\ IdleOK
           /\ C("T01", "success", cfg.stat => s.success = Count("ok"))
           /\ C("T01", "error", cfg.stat => s.error = Count("exc"))
           /\ C("T01", "done", cfg.stat => s.done = Ended)
           /\ C("T01", "leeway_ms", cfg.stat => s.leeway_ms = cfg.leeway)
           /\ C("T01", "max_count", cfg.stat => s.max_count = cfg.max)
           /\ UNCHANGED vars

Step(ev) ==
    CASE ev.e = "call" -> Call(ev.c)
      [] ev.e = "cancel" -> Cancel(ev.c)
      [] ev.e = "set" -> Set(ev.x, ev.c, ev.k)
      [] ev.e = "finish" -> Finish(ev.x, ev.k, ev.n)
      [] ev.e = "adv" -> Adv(ev.t)
      [] ev.e = "start" -> Start(ev.x, ev.args, ev.ex)
      [] ev.e = "fcancel" -> FCancel(ev.x)
      [] ev.e = "ret" -> Ret(ev.c, ev.k, ev.v)
      [] ev.e = "idle" -> Idle(ev.s)
      [] OTHER -> C("A02", "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

\* ------------------------------------------------- properties of the design
OwnResult == \A c \in DOMAIN call : (call[c].ret /\ call[c].k = "ok") =>
                \E x \in DOMAIN exec : c \in Range(exec[x].args) /\ call[c].v = Value(x, c)
OneBatch == \A x, y \in DOMAIN exec :
                (x # y /\ Range(exec[x].args) \cap Range(exec[y].args) # {}) =>
                    /\ exec[x].b = exec[y].b
                    /\ exec[x].st = "cancelled" \/ exec[y].st = "cancelled"
OneAtATime == \A x, y \in DOMAIN exec :
                (x # y /\ exec[x].st = "run" /\ exec[y].st = "run") => exec[x].b # exec[y].b
Bounded == \A b \in DOMAIN batch : cfg.max > 0 => Len(batch[b].calls) <= cfg.max
NoneEarly == \A x \in DOMAIN exec : LET b == exec[x].b IN batch[b].fullAt >= 0 \/ now >= Due(b)
=============================================================================
