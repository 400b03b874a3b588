-------------------------------- MODULE MCDns --------------------------------
EXTENDS Dns, Json
CONSTANTS Labels, Deep, NZones, Types, Depth, NReqs
VARIABLES hist, nr
Names == UNION {[1..k -> Labels] : k \in 0..Deep}
ZNames == Names
Recs == {[id |-> <<n, t>>, n |-> n, t |-> t] : n \in Names \ {<<>>}, t \in Types}
Small == {<<>>} \cup {<<r>> : r \in Recs}
NZ == Cardinality(DOMAIN objs)
StoreEvents ==
    (IF NZ < NZones THEN {[e |-> "mkzone", z |-> NZ + 1, n |-> n] : n \in ZNames} ELSE {}) \cup
    {[e |-> "addrec", z |-> z, r |-> r, ok |-> ok] : z \in DOMAIN objs, r \in Recs, ok \in BOOLEAN} \cup
    {[e |-> "rmrec", z |-> z, r |-> r] : z \in DOMAIN objs, r \in Recs} \cup
    {[e |-> "rezone", z |-> z, rs |-> rs, ok |-> ok] : z \in DOMAIN objs, rs \in Small, ok \in BOOLEAN} \cup
    {[e |-> "addzone", z |-> z, ok |-> ok] : z \in DOMAIN objs, ok \in BOOLEAN} \cup
    {[e |-> "rmzone", n |-> n, ok |-> ok] : n \in ZNames, ok \in BOOLEAN} \cup
    {[e |-> "restore", zs |-> <<[z |-> NZ + 1, n |-> n, rs |-> rs]>>, ok |-> ok] :
        n \in (IF NZ < NZones THEN ZNames ELSE {}), rs \in Small, ok \in BOOLEAN}
ReqEvents == IF nr < NReqs THEN {[e |-> "req", c |-> 1, i |-> nr, n |-> n, t |-> t, k |-> "tcp", lim |-> 100, big |-> FALSE] :
                                  n \in Names, t \in Types} ELSE {}
SysEvents == {[e |-> "reply", c |-> c, i |-> Head(pend[c]).i, q |-> TRUE, aa |-> TRUE, rc |-> rc, ids |-> ids, len |-> Len(ids),
               tc |-> FALSE, size |-> 50] : c \in {d \in DOMAIN pend : pend[d] # <<>>}, rc \in {0, 3},
                ids \in {<<>>} \cup {<<r.id>> : r \in Recs}}
MCInit == InitWith([x |-> 0]) /\ hist = <<>> /\ nr = 0
SysNext == (\E ev \in SysEvents : Step(ev)) /\ UNCHANGED <<hist, nr>>
Settled == \A c \in DOMAIN pend : pend[c] = <<>>
MCNext == \/ Settled /\ (\E ev \in StoreEvents : Step(ev)) /\ UNCHANGED <<hist, nr>>
          \/ (\E ev \in ReqEvents : Step(ev)) /\ nr' = nr + 1 /\ UNCHANGED hist
          \/ SysNext
          \/ Idle /\ UNCHANGED <<hist, nr>>
MCSpec == MCInit /\ [][MCNext]_<<vars, hist, nr>>
Obligations == IdleOK \/ ENABLED SysNext
Short == \A z \in DOMAIN objs : Cardinality(objs[z].recs) <= 1
GenNext == \E ev \in StoreEvents : Step(ev) /\ hist' = Append(hist, ev) /\ UNCHANGED nr
GenPrint == IF TLCGet("level") = Depth THEN PrintT("GEN " \o ToJson([ops |-> hist, cfg |-> cfg])) ELSE TRUE
=============================================================================
