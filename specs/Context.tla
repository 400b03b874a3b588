------------------------------- MODULE Context -------------------------------
(* aiomisc.context.Context: values that are awaited before or after being set.

   Environment: set(k,v) get(r,k) cancel(r)
   System:      ret(r,s,v)

   v: the number of the value, unique per script.  s: "ok" or "cancelled".      *)
EXTENDS Clauses

VARIABLES cfg, sets,  \* key -> values set so far
          eff,        \* key -> how many of them are effective for sure
          readers, cnt

vars == <<cfg, sets, eff, readers, cnt>>

InitWith(c) == /\ cfg = c /\ sets = EmptyMap /\ eff = EmptyMap /\ readers = EmptyMap
               /\ cnt = [get |-> 0, set |-> 0]

At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>
Eff(k) == IF k \in DOMAIN eff THEN eff[k] ELSE 0

Set(k, v) == /\ sets' = MapSet(sets, k, Append(At(sets, k), v))
             /\ cnt' = [cnt EXCEPT !.set = @ + 1]
             /\ UNCHANGED <<cfg, eff, readers>>

\* a reader gets one of the values lo..hi: the first one if it has to wait,
\* otherwise the last one (a set takes effect soon, not at once)
Get(r, k) ==
    /\ r \notin DOMAIN readers
    /\ readers' = MapSet(readers, r, [k |-> k, lo |-> Max(Eff(k), 1), hi |-> Max(Len(At(sets, k)), 1),
                                      cxl |-> FALSE, st |-> "wait"])
    /\ cnt' = [cnt EXCEPT !.get = @ + 1]
    /\ UNCHANGED <<cfg, sets, eff>>

Cancel(r) == /\ readers[r].st = "wait"
             /\ readers' = [readers EXCEPT ![r].cxl = TRUE]
             /\ UNCHANGED <<cfg, sets, eff, cnt>>

Ret(r, s, v) ==
    /\ C("X01", "second_value", readers[r].st = "wait")
    /\ IF s = "cancelled" THEN C("X01", "cancelled_by_nobody", readers[r].cxl)
       ELSE LET q == At(sets, readers[r].k)
            IN /\ C("X01", "value_never_set", \E i \in DOMAIN q : q[i] = v)
               /\ C("X01", "wrong_value", \E i \in DOMAIN q : q[i] = v /\ i \in readers[r].lo..readers[r].hi)
    /\ readers' = [readers EXCEPT ![r].st = "done"]
    /\ UNCHANGED <<cfg, sets, eff, cnt>>

IdleOK ==
    /\ C("X01", "reader_forgotten",
         \A r \in DOMAIN readers : (readers[r].st = "wait" => At(sets, readers[r].k) = <<>>))
    /\ C("X01", "cancelled_reader_waits",
         \A r \in DOMAIN readers : (readers[r].st = "wait" => ~readers[r].cxl))

Idle(s) == /\ IdleOK
           /\ C("T01", "get", s.get = cnt.get)
           /\ C("T01", "set", s.set = cnt.set)
           /\ eff' = [k \in DOMAIN sets |-> Len(sets[k])]
           /\ UNCHANGED <<cfg, sets, readers, cnt>>

Step(ev) ==
    CASE ev.e = "set" -> Set(ev.k, ev.v)
      [] ev.e = "get" -> Get(ev.r, ev.k)
      [] ev.e = "cancel" -> Cancel(ev.r)
      [] ev.e = "ret" -> Ret(ev.r, ev.s, ev.v)
      [] ev.e = "idle" -> Idle(ev.s)
      [] ev.e = "adv" -> UNCHANGED vars
      [] OTHER -> C("X01", "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

EffBounded == \A k \in DOMAIN eff : eff[k] <= Len(At(sets, k))
RangeSane == \A r \in DOMAIN readers : readers[r].lo <= readers[r].hi
=============================================================================
