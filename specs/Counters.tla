------------------------------ MODULE Counters ------------------------------
(* aiomisc.counters: statistic classes, their instances and get_statistics.

   "base" has the subclasses "child" and "other", "child" has the subclass "grand";
   "alone" is unrelated.  Names need not be unique.
   new(i,kind,name) op(i,m,o,v) drop(i) query(kinds,res)
   o: "add", "sub", "set".  res: sequence of <<kind, name, metric, value>>       *)
EXTENDS Clauses

VARIABLES cfg, live   \* instance -> [kind, name, vals]

vars == <<cfg, live>>

Metrics(kind) == CASE kind = "child" -> {"a", "b", "c"}
                   [] kind = "grand" -> {"a", "b", "c", "g"}
                   [] kind = "other" -> {"a", "b", "z"}
                   [] OTHER -> {"a", "b"}
SubKinds(kind) == CASE kind = "base" -> {"base", "child", "other", "grand"}
                    [] kind = "child" -> {"child", "grand"}
                    [] OTHER -> {kind}

InitWith(c) == cfg = c /\ live = EmptyMap

New(i, kind, name) ==
    /\ live' = MapSet(live, i, [kind |-> kind, name |-> name,
                                vals |-> [m \in Metrics(kind) |-> 0]])
    /\ UNCHANGED cfg
Op(i, m, o, v) ==
    /\ live' = [live EXCEPT ![i].vals[m] =
                  CASE o = "add" -> @ + v [] o = "sub" -> @ - v [] OTHER -> v]
    /\ UNCHANGED cfg
Drop(i) == live' = [j \in DOMAIN live \ {i} |-> live[j]] /\ UNCHANGED cfg

Wanted(kinds) == {i \in DOMAIN live : kinds = <<>> \/ \E k \in Range(kinds) : live[i].kind \in SubKinds(k)}
Rows(i) == {<<live[i].kind, live[i].name, m, live[i].vals[m]>> : m \in DOMAIN live[i].vals}
Asked(kinds, r) == kinds = <<>> \/ \E k \in Range(kinds) : r[1] \in SubKinds(k)
Key(r) == <<r[1], r[2], r[3]>>
\* how many rows are to be reported, and are
WantRow(kinds, r) == Cardinality({i \in Wanted(kinds) : r \in Rows(i)})
GotRow(res, r) == Cardinality({n \in DOMAIN res : res[n] = r})
WantKey(kinds, k) == Cardinality({i \in Wanted(kinds) : \E r \in Rows(i) : Key(r) = k})
GotKey(res, k) == Cardinality({n \in DOMAIN res : Key(res[n]) = k})
Query(kinds, res) ==
    /\ LET want == UNION {Rows(i) : i \in Wanted(kinds)}
           got == Range(res)
           keys == {Key(r) : r \in want \cup got}
       IN /\ C("T01", "kind_not_asked_for", \A r \in got : Asked(kinds, r))
          /\ C("T01", "instance_or_metric_missing", \A k \in keys : GotKey(res, k) >= WantKey(kinds, k))
          /\ C("T01", "dropped_or_unknown_reported", \A k \in keys : WantKey(kinds, k) > 0)
          /\ C("T01", "reported_twice", \A k \in keys : GotKey(res, k) <= WantKey(kinds, k))
          /\ C("T01", "wrong_value", \A r \in want \cup got : GotRow(res, r) = WantRow(kinds, r))
    /\ UNCHANGED vars
\* reading a metric as a user does: comparing it with a number
Eq(i, m, v, r) == C("T01", "wrong_comparison", r = (live[i].vals[m] = v)) /\ UNCHANGED vars

ValuesOf(kinds) == UNION {Rows(i) : i \in Wanted(kinds)}
\* ------------------------------------------------- properties of the design
\* a subclass never hides anything, and unrelated kinds share nothing
Nested == ValuesOf(<<"child">>) \subseteq ValuesOf(<<"base">>)
NestedTwice == ValuesOf(<<"grand">>) \subseteq ValuesOf(<<"child">>)
Disjoint == ValuesOf(<<"alone">>) \cap ValuesOf(<<"base">>) = {}
All == ValuesOf(<<>>) = ValuesOf(<<"base", "alone">>)

Step(ev) ==
    CASE ev.e = "new" -> New(ev.i, ev.kind, ev.name)
      [] ev.e = "op" -> Op(ev.i, ev.m, ev.o, ev.v)
      [] ev.e = "drop" -> Drop(ev.i)
      [] ev.e = "query" -> Query(ev.kinds, ev.res)
      [] ev.e = "eq" -> Eq(ev.i, ev.m, ev.v, ev.r)
      [] OTHER -> C("T01", "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars
=============================================================================
