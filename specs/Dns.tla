-------------------------------- MODULE Dns --------------------------------
(* The DNS store and the servers which answer from it.  A name is a sequence of labels, the most significant first.
   A record is [id, n, t]: its name and type; equal records have equal ids.

   Store operations and what they return:
     mkzone(z,n)             a zone object named n
     addrec(z,r,ok) rmrec(z,r) rezone(z,rs,ok)   add to, remove from, replace the records of zone object z
     addzone(z,ok) rmzone(n,ok) restore(zs,ok)   the same for the store;  zs: <<[z, n, rs], ...>>
     getzone(n,z)            query(n,t,ids,len)
   Server:
     req(c,i,n,t,k,lim,big)  a whole request has come from client c (k: "udp" or "tcp"), lim: size it accepts, big: the answer is bigger
     badreq(c)               a malformed one (or its part)      hup(c)  the client hung up
     reply(c,i,q,aa,rc,ids,len,tc,size)  a reply: its id, whether the question is the same, ...                    *)
EXTENDS Clauses
VARIABLES cfg, objs, store, pend, broken
vars == <<cfg, objs, store, pend, broken>>
S == "D01"
V == "D02"
InitWith(c) == cfg = c /\ objs = EmptyMap /\ store = EmptyMap /\ pend = EmptyMap /\ broken = {}

Below(z, n) == Len(z) <= Len(n) /\ SubSeq(n, 1, Len(z)) = z
Holding(n) == {z \in DOMAIN store : Below(z, n)}
Best(n) == CHOOSE z \in Holding(n) : \A y \in Holding(n) : Len(y) <= Len(z)
Answer(n, t) == IF Holding(n) = {} THEN {} ELSE {r.id : r \in {x \in objs[store[Best(n)]].recs : x.n = n /\ x.t = t}}
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

MkZone(z, n) == objs' = MapSet(objs, z, [n |-> n, recs |-> {}]) /\ UNCHANGED <<cfg, store, pend, broken>>
AddRec(z, r, ok) == /\ C(S, "accepts_wrong_records", ok = Below(objs[z].n, r.n))
                    /\ objs' = IF ok THEN [objs EXCEPT ![z].recs = @ \cup {r}] ELSE objs
                    /\ UNCHANGED <<cfg, store, pend, broken>>
RmRec(z, r) == objs' = [objs EXCEPT ![z].recs = @ \ {r}] /\ UNCHANGED <<cfg, store, pend, broken>>
ReZone(z, rs, ok) == /\ C(S, "accepts_wrong_records", ok = (\A r \in Range(rs) : Below(objs[z].n, r.n)))
                     /\ objs' = IF ok THEN [objs EXCEPT ![z].recs = Range(rs)] ELSE objs
                     /\ UNCHANGED <<cfg, store, pend, broken>>
AddZone(z, ok) == /\ C(S, "zone_twice", ok = (objs[z].n \notin DOMAIN store))
                  /\ store' = IF ok THEN MapSet(store, objs[z].n, z) ELSE store
                  /\ UNCHANGED <<cfg, objs, pend, broken>>
RmZone(n, ok) == /\ C(S, "zone_not_there", ok = (n \in DOMAIN store))
                 /\ store' = IF ok THEN Drop(store, n) ELSE store
                 /\ UNCHANGED <<cfg, objs, pend, broken>>
ReStore(zs, ok) ==
    LET good == \A i \in DOMAIN zs : \A r \in Range(zs[i].rs) : Below(zs[i].n, r.n)
        ids == {zs[i].z : i \in DOMAIN zs}
        at(z) == CHOOSE i \in DOMAIN zs : zs[i].z = z
    IN /\ C(S, "accepts_wrong_records", ok = good)
       /\ objs' = IF ok THEN [z \in DOMAIN objs \cup ids |-> IF z \in ids THEN [n |-> zs[at(z)].n, recs |-> Range(zs[at(z)].rs)] ELSE objs[z]]
                  ELSE objs
       /\ store' = IF ok THEN [n \in {zs[i].n : i \in DOMAIN zs} |-> (CHOOSE x \in {zs[i] : i \in DOMAIN zs} : x.n = n).z] ELSE store
       /\ UNCHANGED <<cfg, pend, broken>>
GetZone(n, z) == /\ C(S, "wrong_zone", z = IF n \in DOMAIN store THEN store[n] ELSE 0)
                 /\ UNCHANGED vars
Query(n, t, ids, len) == /\ C(S, "wrong_records", Range(ids) = Answer(n, t))
                         /\ C(S, "record_twice", len = Cardinality(Range(ids)))
                         /\ UNCHANGED vars

Known(c) == IF c \in DOMAIN pend THEN pend[c] ELSE <<>>
Req(ev) == pend' = MapSet(pend, ev.c, Append(Known(ev.c), ev)) /\ UNCHANGED <<cfg, objs, store, broken>>
BadReq(c) == broken' = broken \cup {c} /\ UNCHANGED <<cfg, objs, store, pend>>
Reply(ev) ==
    /\ C(V, "reply_without_request", Known(ev.c) # <<>>) /\ Known(ev.c) # <<>>
    /\ LET r == Head(Known(ev.c)) a == Answer(r.n, r.t) IN
       /\ C(V, "wrong_id", ev.i = r.i)
       /\ C(V, "wrong_question", ev.q)
       /\ C(V, "not_authoritative", ev.aa)
       /\ C(V, "wrong_code", IF r.t = "?" THEN ev.rc # 0 ELSE ev.rc = (IF a = {} THEN 3 ELSE 0))
       /\ C(V, "too_big", ev.size <= r.lim)
       /\ C(V, "truncated_needlessly", ev.tc => r.big)
       /\ C(V, "wrong_answer", IF ev.tc THEN Range(ev.ids) \subseteq a ELSE Range(ev.ids) = a)
       /\ C(V, "answer_twice", ev.len = Cardinality(Range(ev.ids)))
    /\ pend' = [pend EXCEPT ![ev.c] = Tail(@)]
    /\ UNCHANGED <<cfg, objs, store, broken>>
IdleOK == C(V, "no_reply", \A c \in DOMAIN pend : pend[c] = <<>> \/ c \in broken)
Idle == IdleOK /\ UNCHANGED vars

Step(ev) ==
    CASE ev.e = "mkzone" -> MkZone(ev.z, ev.n)
      [] ev.e = "addrec" -> AddRec(ev.z, ev.r, ev.ok)
      [] ev.e = "rmrec" -> RmRec(ev.z, ev.r)
      [] ev.e = "rezone" -> ReZone(ev.z, ev.rs, ev.ok)
      [] ev.e = "addzone" -> AddZone(ev.z, ev.ok)
      [] ev.e = "rmzone" -> RmZone(ev.n, ev.ok)
      [] ev.e = "restore" -> ReStore(ev.zs, ev.ok)
      [] ev.e = "getzone" -> GetZone(ev.n, ev.z)
      [] ev.e = "query" -> Query(ev.n, ev.t, ev.ids, ev.len)
      [] ev.e = "req" -> Req(ev)
      [] ev.e = "badreq" -> BadReq(ev.c)
      [] ev.e = "hup" -> BadReq(ev.c)
      [] ev.e = "reply" -> Reply(ev)
      [] ev.e = "idle" -> Idle
      [] ev.e = "adv" -> UNCHANGED vars
      [] OTHER -> C(S, "unexpected_" \o ev.e, FALSE) /\ C(V, "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

\* what the clauses are meant to guarantee
OwnNames == \A n \in DOMAIN store : objs[store[n]].n = n
InsideZone == \A z \in DOMAIN objs : \A r \in objs[z].recs : Below(objs[z].n, r.n)
=============================================================================
