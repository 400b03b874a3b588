------------------------------ MODULE Clauses ------------------------------
(* Named, per-property guards.  A clause that fails disables the step it guards
   when the property it belongs to is enforced; otherwise it is ignored, so one
   specification serves several properties.  With Diagnose the name of every
   failing clause is printed. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Enforce, Diagnose

C(p, n, b) ==
    IF b THEN TRUE
    ELSE IF p \notin Enforce THEN TRUE
    ELSE IF Diagnose THEN PrintT(<<"CLAUSE", p, n>>) /\ FALSE
    ELSE FALSE

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(f, S \ {x})
Range(s) == {s[i] : i \in DOMAIN s}
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
SeqRemove(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
MapSet(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
EmptyMap == [x \in {} |-> 0]
=============================================================================
