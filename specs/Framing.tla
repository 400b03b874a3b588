------------------------------ MODULE Framing ------------------------------
(* Packets between the worker pool and its processes: a stream of bytes in between, split anywhere.

   Environment: send(i,n) packet i (n bytes with its header) is sent;  chunk(n) n more bytes reach the reader
                eof       nothing more will come (the writer is gone, everything written may not have come)
                recv      the reader asks for a packet
   System:      wire(n) so many bytes were put on the wire;  sent(i)  sending is over
                got(i,ok) the reader gets packet i, ok: what was sent;  err  the reader gets an error         *)
EXTENDS Clauses
VARIABLES cfg, sizes, wired, busy, avail, eof, got, asking, failed
vars == <<cfg, sizes, wired, busy, avail, eof, got, asking, failed>>
W == "W03"
InitWith(c) == /\ cfg = c /\ sizes = <<>> /\ wired = 0 /\ busy = FALSE /\ avail = 0 /\ eof = FALSE
               /\ got = 0 /\ asking = FALSE /\ failed = FALSE
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Total == Sum(sizes, Len(sizes))
Whole == got < Len(sizes) /\ avail >= Sum(sizes, got + 1)

Send(i, n) == /\ C(W, "out_of_order", i = Len(sizes) + 1)
              /\ sizes' = Append(sizes, n) /\ busy' = TRUE
              /\ UNCHANGED <<cfg, wired, avail, eof, got, asking, failed>>
Wire(n) == /\ C(W, "more_than_sent", wired + n <= Total)
           /\ wired' = wired + n
           /\ UNCHANGED <<cfg, sizes, busy, avail, eof, got, asking, failed>>
Sent(i) == /\ C(W, "not_whole", wired = Total)
           /\ busy' = FALSE
           /\ UNCHANGED <<cfg, sizes, wired, avail, eof, got, asking, failed>>
Chunk(n) == /\ avail + n <= wired \/ W \notin Enforce
            /\ avail' = avail + n
            /\ UNCHANGED <<cfg, sizes, wired, busy, eof, got, asking, failed>>
Eof == /\ eof' = TRUE /\ UNCHANGED <<cfg, sizes, wired, busy, avail, got, asking, failed>>
Recv == /\ asking' = TRUE /\ UNCHANGED <<cfg, sizes, wired, busy, avail, eof, got, failed>>
Got(i, ok) == /\ C(W, "not_asked", asking)
              /\ C(W, "wrong_packet", i = got + 1)
              /\ C(W, "wrong_content", ok)
              /\ C(W, "packet_of_a_part", Whole)
              /\ C(W, "packet_after_error", ~failed)
              /\ got' = got + 1 /\ asking' = FALSE
              /\ UNCHANGED <<cfg, sizes, wired, busy, avail, eof, failed>>
Err == /\ C(W, "error_without_end", eof)
       /\ C(W, "whole_packet_lost", failed \/ ~Whole)
       /\ asking' = FALSE /\ failed' = TRUE
       /\ UNCHANGED <<cfg, sizes, wired, busy, avail, eof, got>>
IdleOK == /\ C(W, "packet_not_received", asking => ~Whole)
          /\ C(W, "end_not_reported", asking => ~eof)
          /\ C(W, "sending_hangs", ~busy)
Idle == IdleOK /\ UNCHANGED vars
Step(ev) ==
    CASE ev.e = "send" -> Send(ev.i, ev.n)
      [] ev.e = "wire" -> Wire(ev.n)
      [] ev.e = "sent" -> Sent(ev.i)
      [] ev.e = "chunk" -> Chunk(ev.n)
      [] ev.e = "eof" -> Eof
      [] ev.e = "recv" -> Recv
      [] ev.e = "got" -> Got(ev.i, ev.ok)
      [] ev.e = "err" -> Err
      [] ev.e = "idle" -> Idle
      [] OTHER -> C(W, "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars

Prefix == got <= Len(sizes) /\ Sum(sizes, got) <= avail /\ avail <= wired /\ wired <= Total
=============================================================================
