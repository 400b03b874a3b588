------------------------------- MODULE Server -------------------------------
(* Stream servers (TCPServer, TLSServer) and the datagram server (UDPServer).

   Environment:  come(c) a client has connected     data(c,x) it sends message x     hup(c) it hangs up
                 dgram(c,x) a datagram x comes from address c
                 end(c,k) the handler of c (the datagram c) is told to end (k: ok, fail)
                 stop(s)  stop() is called          released(c) a cancelled handler finishes its cleanup
   System:       call(c,x) the handler is called (x: the datagram)     got(c,x) it reads message x
                 sent(c,x) what it writes reaches the client           cancel(c) it is cancelled
                 fin(c)  it has ended                                   closed(c) the connection is closed
                 stopped(s) stop() has returned     refused(c) a client could not connect
   For datagrams c is the number of the datagram.  cfg: [m: "stream" or "dgram"]                              *)
EXTENDS Clauses
VARIABLES cfg, conns, st, stops
vars == <<cfg, conns, st, stops>>
N == "N01"
Stream == cfg.m = "stream"
InitWith(c) == cfg = c /\ conns = EmptyMap /\ st = "up" /\ stops = EmptyMap

\* h: new, run, end (told to end), cxl (cancelled, cleaning up), go (its cleanup may end), fin;  buf: sent by the client, not read;
\* how: how its handler was told to end;  late: called while stop() waited for others
New == [h |-> "new", buf |-> <<>>, out |-> <<>>, open |-> TRUE, hup |-> FALSE, how |-> "", x |-> 0, late |-> FALSE]
Busy(c) == conns[c].h \in {"run", "end", "cxl", "go"}
Set(c, x) == conns' = MapSet(conns, c, x)
Known(c) == c \in DOMAIN conns

Come(c) == /\ ~Known(c)
           /\ C(N, "accepts_after_stop", st # "down")
           /\ Set(c, New) /\ UNCHANGED <<cfg, st, stops>>
Refused(c) == /\ C(N, "refuses_clients", st # "up") /\ UNCHANGED vars
Data(c, x) == Set(c, [conns[c] EXCEPT !.buf = Append(@, x)]) /\ UNCHANGED <<cfg, st, stops>>
Hup(c) == Set(c, [conns[c] EXCEPT !.hup = TRUE]) /\ UNCHANGED <<cfg, st, stops>>
Dgram(c, x) == /\ ~Known(c)
               /\ Set(c, [New EXCEPT !.x = x, !.open = FALSE, !.buf = <<x>>]) /\ UNCHANGED <<cfg, st, stops>>
Call(c, x) == /\ C(N, "called_for_nothing", Known(c)) /\ Known(c)
              /\ C(N, "called_again", conns[c].h = "new")
              /\ C(N, "called_after_stop", st # "down")
              /\ C(N, "wrong_datagram", Stream \/ x = conns[c].x)
              /\ Set(c, [conns[c] EXCEPT !.h = "run", !.late = st # "up"])
              /\ UNCHANGED <<cfg, st, stops>>
Got(c, x) == /\ C(N, "wrong_data", Known(c) /\ conns[c].buf # <<>> /\ x = Head(conns[c].buf))
             /\ Set(c, [conns[c] EXCEPT !.buf = IF @ = <<>> THEN @ ELSE Tail(@), !.out = Append(@, x)])
             /\ UNCHANGED <<cfg, st, stops>>
\* every handler answers what it has read
Sent(c, x) == /\ C(N, "wrong_answer", Known(c) /\ conns[c].out # <<>> /\ x = Head(conns[c].out))
              /\ Set(c, [conns[c] EXCEPT !.out = IF @ = <<>> THEN @ ELSE Tail(@)])
              /\ UNCHANGED <<cfg, st, stops>>
End(c, k) == /\ conns[c].h = "run"
             /\ Set(c, [conns[c] EXCEPT !.h = "end", !.how = k]) /\ UNCHANGED <<cfg, st, stops>>
Cancel(c) == /\ C(N, "cancelled_needlessly", st = "stopping")
             /\ Known(c) /\ conns[c].h \in {"run", "end"}
             /\ Set(c, [conns[c] EXCEPT !.h = "cxl"]) /\ UNCHANGED <<cfg, st, stops>>
Released(c) == Known(c) /\ conns[c].h = "cxl"
               /\ Set(c, [conns[c] EXCEPT !.h = "go", !.how = "cancel"]) /\ UNCHANGED <<cfg, st, stops>>
Fin(c) == /\ Known(c) /\ conns[c].h \in {"end", "go"}
          /\ Set(c, [conns[c] EXCEPT !.h = "fin"]) /\ UNCHANGED <<cfg, st, stops>>
Closed(c) == /\ C(N, "closed_needlessly", Known(c) /\ (st # "up" \/ conns[c].hup \/ conns[c].h = "fin"))
             /\ Known(c) /\ conns[c].open
             /\ Set(c, [conns[c] EXCEPT !.open = FALSE]) /\ UNCHANGED <<cfg, st, stops>>
Stop(s) == st' = (IF st = "up" THEN "stopping" ELSE st) /\ stops' = MapSet(stops, s, TRUE) /\ UNCHANGED <<cfg, conns>>
Stopped(s) == /\ stops[s]
              /\ C(N, "handler_left_running", \A c \in DOMAIN conns : ~Busy(c))
              /\ C(N, "connection_left_open", \A c \in DOMAIN conns : ~conns[c].open)
              /\ stops' = [stops EXCEPT ![s] = FALSE] /\ st' = "down" /\ UNCHANGED <<cfg, conns>>

\* what must not be put off
Uncalled(c) == conns[c].h = "new" /\ st = "up"
Unread(c) == Stream /\ conns[c].h = "run" /\ ~conns[c].hup /\ (conns[c].buf # <<>> \/ conns[c].out # <<>>)
Unended(c) == conns[c].h \in {"end", "go"}
Unclosed(c) == conns[c].open /\ conns[c].h = "fin" /\ conns[c].how = "fail"
IdleOK == /\ C(N, "client_not_served", \A c \in DOMAIN conns : ~Uncalled(c))
          /\ C(N, "handler_hindered", \A c \in DOMAIN conns : ~Unread(c) /\ ~Unended(c))
          /\ C(N, "failed_left_open", \A c \in DOMAIN conns : ~Unclosed(c))
          /\ C(N, "not_stopping", \A c \in DOMAIN conns : st # "up" =>
                                          (conns[c].h \notin {"run", "end"} \/ (conns[c].late /\ \E d \in DOMAIN conns : conns[d].h = "cxl")))
          /\ C(N, "stop_hangs", (\E s \in DOMAIN stops : stops[s]) => \E c \in DOMAIN conns : Busy(c))
Idle == IdleOK /\ UNCHANGED vars

Step(ev) ==
    CASE ev.e = "come" -> Come(ev.c)
      [] ev.e = "refused" -> Refused(ev.c)
      [] ev.e = "data" -> Data(ev.c, ev.x)
      [] ev.e = "hup" -> Hup(ev.c)
      [] ev.e = "dgram" -> Dgram(ev.c, ev.x)
      [] ev.e = "call" -> Call(ev.c, ev.x)
      [] ev.e = "got" -> Got(ev.c, ev.x)
      [] ev.e = "sent" -> Sent(ev.c, ev.x)
      [] ev.e = "end" -> End(ev.c, ev.k)
      [] ev.e = "cancel" -> Cancel(ev.c)
      [] ev.e = "released" -> Released(ev.c)
      [] ev.e = "fin" -> Fin(ev.c)
      [] ev.e = "closed" -> Closed(ev.c)
      [] ev.e = "stop" -> Stop(ev.s)
      [] ev.e = "stopped" -> Stopped(ev.s)
      [] ev.e = "idle" -> Idle
      [] ev.e = "adv" -> UNCHANGED vars
      [] OTHER -> C(N, "unexpected_" \o ev.e, FALSE) /\ UNCHANGED vars
\* what the clauses are meant to guarantee
DownIsDown == st = "down" => \A c \in DOMAIN conns : ~Busy(c) /\ ~conns[c].open
=============================================================================
