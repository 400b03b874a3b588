---- MODULE BridgeTrace ----
(* Replays recorded executions of the implementation through Bridge!Step. *)
EXTENDS Bridge, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ InitWith(Traces[tid].cfg)
             /\ TLCSet(tid, 0)
TraceNext == /\ l <= Len(Traces[tid].ev)
             /\ Step(Traces[tid].ev[l])
             /\ l' = l + 1 /\ tid' = tid
TraceProgress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
TraceReport == /\ \A t \in 1..Len(Traces) :
                    TLCGet(t) > Len(Traces[t].ev) \/ PrintT(<<"REJECTED", t, TLCGet(t)>>)
               /\ PrintT("TRACEREPORT")
====
