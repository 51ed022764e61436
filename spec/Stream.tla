------------------------------- MODULE Stream -------------------------------
(* Pipes, and pairs of stream, datagram and seqpacket sockets.  What one end writes is read from the other: the   *)
(* bytes of a stream once and in order, the packets of the others one at a time and whole (as far as they fit).   *)
(* When a pending operation completes is up to the implementation; what it may complete with, and that it has     *)
(* completed once nothing is left to run, is not.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE S

Ends == {0, 1}
Other(e) == 1 - e
None == [i \in {} |-> 0]
InitS(k) == [kind |-> k,                                    \* "p": pipe, 0 reads and 1 writes; "s", "d", "q"
             by |-> [e \in Ends |-> 0],                     \* bytes on their way from e
             pk |-> [e \in Ends |-> <<>>],                  \* packets on their way from e: [k: number, n: size]
             open |-> [e \in Ends |-> TRUE], there |-> [e \in Ends |-> TRUE],
             wsh |-> [e \in Ends |-> k = "p" /\ e = 0],     \* nothing more is going to come from e
             rsh |-> [e \in Ends |-> k = "p" /\ e = 1],     \* nothing more is going to be read at e
             gone |-> [e \in Ends |-> FALSE],               \* e was closed with something left to read
             told |-> [e \in Ends |-> FALSE],               \* a read at e has failed or met the end: another one may wait for ever
             wtold |-> [e \in Ends |-> FALSE],              \* the same for writes, that did not take everything or failed
             lossy |-> [e \in Ends |-> FALSE],              \* the system may have dropped what was to be read at e
             ops |-> None]                                  \* the pending operations
Packets(s) == s.kind \in {"d", "q"}
Big == 4096                                                 \* that much is taken without anybody reading
Min(a, b) == IF a < b THEN a ELSE b
Pend(s) == DOMAIN s.ops
Reads == {"R", "K", "O", "A"}
Writes == {"W", "B"}
Flow(s, e) == IF Packets(s) THEN Len(s.pk[e]) ELSE s.by[e]
\* there is something to read at e / it is known that there will not be
Data(s, e) == Flow(s, Other(e)) > 0
Eof(s, e) == s.wsh[Other(e)] \/ s.rsh[e]
\* nobody takes what e sends
Dead(s, e) == s.wsh[e] \/ s.rsh[Other(e)]
Full(s, e) == IF Packets(s) THEN Len(s.pk[e]) > 4 ELSE s.by[e] > Big

----------------------------------------------------------------------------
\* Starting one.  What is written counts as on its way from then on.
Noop(s, o) == ~Packets(s) /\ o.c \in {"R", "W", "A", "B"} /\ o.n = 0
Start(s, i, c, e, n, f, w, k) ==
  LET o == [c |-> c, e |-> e, n |-> n, f |-> f, w |-> w,
            bad |-> ~s.open[e],                       \* cannot work
            dead |-> c \in Writes /\ Dead(s, e),
            x |-> FALSE,                              \* was told to stop
            due |-> FALSE,                            \* and will not go on
            must |-> FALSE]                           \* before it could have done anything
      t == [s EXCEPT !.ops = [j \in Pend(s) \cup {i} |-> IF j = i THEN o ELSE @[j]],
                     !.lossy[e] = @ \/ (s.kind = "d" /\ c = "W" /\ ~s.open[Other(e)])]     \* a datagram to nobody
  IN IF c \in Writes /\ ~o.bad /\ ~o.dead
     THEN IF Packets(s) THEN [t EXCEPT !.pk[e] = Append(@, [k |-> k, n |-> n])] ELSE [t EXCEPT !.by[e] = @ + n]
     ELSE t
\* What it may complete with: o, n bytes; of which a reader saw got right, from packet k
Front(s, e) == s.pk[Other(e)][1]
Reported(o, f, n) == IF o = "ok" \/ f = "t" THEN n ELSE 0 - 1
ReadDone(s, p, o, n, got, k) ==
  LET fl == Other(p.e) IN
  /\ got >= 0 /\ n = Reported(o, p.f, got)
  /\ CASE p.bad -> got = 0 /\ (o = "err" \/ (Noop(s, p) /\ o = "ok"))
       [] Noop(s, p) -> got = 0 /\ o \in {"ok"} \cup (IF p.x /\ p.c = "A" THEN {"aborted"} ELSE {})
       [] o = "ok" -> /\ ~p.must
                      /\ IF Packets(s)
                         THEN \/ Data(s, p.e) /\ got = Min(p.n, Front(s, p.e).n) /\ k = (IF got = 0 THEN 0 ELSE Front(s, p.e).k)
                              \/ ~Data(s, p.e) /\ Eof(s, p.e) /\ got = 0 /\ k = 0
                         ELSE got > 0 /\ got <= Min(p.n, s.by[fl]) /\ (p.c = "A" => got = p.n)
       [] o = "eof" -> ~Packets(s) /\ s.by[fl] = got /\ Eof(s, p.e) /\ ~p.must /\ (IF p.c = "A" THEN got < p.n ELSE got = 0)
       [] o = "aborted" -> p.x /\ (IF p.c = "A" THEN got <= Min(p.n, s.by[fl]) ELSE got = 0)
       [] o = "err" -> /\ s.gone[Other(p.e)] \/ ~s.open[p.e] \/ (s.kind = "d" /\ Eof(s, p.e))
                       /\ IF p.c = "A" THEN got <= Min(p.n, s.by[fl]) ELSE got = 0
WriteDone(s, p, o, n) ==
  CASE p.bad -> (o = "err" \/ (Noop(s, p) /\ o = "ok")) /\ n = Reported(o, p.f, 0)
    [] Noop(s, p) -> o \in {"ok"} \cup (IF p.x /\ p.c = "B" THEN {"aborted"} ELSE {}) /\ n = Reported(o, p.f, 0)
    [] p.dead -> (o = "err" \/ (o = "aborted" /\ p.x)) /\ n = Reported(o, p.f, 0)
    [] o = "ok" -> IF Packets(s) \/ p.c = "B" THEN n = p.n ELSE n > 0 /\ n <= p.n /\ s.by[p.e] >= p.n - n
    [] OTHER -> /\ o = "aborted" => p.x
                /\ o = "err" => Dead(s, p.e) \/ ~s.open[p.e]
                /\ o \in {"aborted", "err"}
                /\ IF p.c = "B" THEN n >= 0 /\ n <= p.n /\ s.by[p.e] >= p.n - n
                   ELSE n = Reported(o, p.f, 0) /\ (IF Packets(s) THEN s.pk[p.e] # <<>> ELSE s.by[p.e] >= p.n)
WaitDone(s, p, o) ==
  CASE p.bad -> o = "err"
    [] o = "ok" -> p.w = "w" \/ (~p.must /\ (Data(s, p.e) \/ Eof(s, p.e)))
    [] o = "aborted" -> p.x
    [] OTHER -> o = "err" /\ ~s.open[p.e]
ResOk(s, i, o, n, got, k) ==
  /\ i \in Pend(s)
  /\ LET p == s.ops[i] IN
     IF p.c \in Reads THEN ReadDone(s, p, o, n, got, k)
     ELSE IF p.c \in Writes THEN WriteDone(s, p, o, n) /\ got = 0
     ELSE WaitDone(s, p, o)
Forget(s, i) == [s EXCEPT !.ops = [j \in Pend(s) \ {i} |-> s.ops[j]]]
Done(s, i, o, n, got) ==
  LET p == s.ops[i]  fl == Other(p.e)
      t == [Forget(s, i) EXCEPT !.told[p.e] = @ \/ (p.c \in Reads /\ o \in {"eof", "err"}),
                             !.wtold[p.e] = @ \/ (p.c \in Writes /\ (o # "ok" \/ n # p.n))] IN
  IF p.c \in Reads
  THEN IF ~Packets(s) THEN [t EXCEPT !.by[fl] = @ - got]
       ELSE IF o = "ok" /\ p.c # "K" /\ Data(s, p.e) THEN [t EXCEPT !.pk[fl] = Tail(@)] ELSE t
  ELSE IF p.c \in Writes /\ ~p.bad /\ ~p.dead
  THEN IF Packets(s) THEN (IF o = "ok" THEN t ELSE [t EXCEPT !.pk[p.e] = SubSeq(@, 1, Len(@) - 1)])
       ELSE [t EXCEPT !.by[p.e] = @ - (p.n - (IF n < 0 THEN 0 ELSE n))]
  ELSE t
\* It has to have completed when nothing is left to run
Due(s, i) ==
  LET p == s.ops[i] IN
  \/ p.bad \/ (p.dead /\ ~s.wtold[p.e]) \/ p.due \/ Noop(s, p)
  \/ IF p.c \in Writes \/ (p.c = "V" /\ p.w = "w") THEN ~Full(s, p.e) /\ ~(Dead(s, p.e) /\ s.wtold[p.e])
     ELSE LET eof == Eof(s, p.e) /\ (p.c = "V" \/ ~s.told[p.e]) /\ s.kind # "d" IN
          IF p.c = "A" THEN s.by[Other(p.e)] >= p.n \/ eof ELSE (Data(s, p.e) /\ ~s.lossy[p.e]) \/ eof

----------------------------------------------------------------------------
\* Told to stop: what could have been done by now may have been.  A composed operation goes on after a step that
\* was not in time, unless it was told itself.
Stop(s, i, itself) ==
  LET p == s.ops[i]
      may == p.c \in Writes \/ (p.c = "V" /\ p.w = "w") \/ Data(s, p.e) \/ Eof(s, p.e) \/ p.bad
  IN [s EXCEPT !.ops[i].x = TRUE, !.ops[i].must = @ \/ ~may, !.ops[i].due = @ \/ itself \/ ~may \/ p.c \notin {"A", "B"}]
RECURSIVE StopAll(_, _, _)
StopAll(s, is, its) == IF is = {} THEN s ELSE LET i == CHOOSE j \in is : TRUE IN StopAll(Stop(s, i, its), is \ {i}, its)
At(s, e) == {i \in Pend(s) : s.ops[i].e = e}
CancelEnd(s, e) == IF s.open[e] THEN StopAll(s, At(s, e), FALSE) ELSE s
Shut(s, e, how) == [s EXCEPT !.rsh[e] = @ \/ how \in {"r", "b"}, !.wsh[e] = @ \/ how \in {"w", "b"}]
Close(s, e) == IF ~s.open[e] THEN s
               ELSE [Shut(StopAll(s, At(s, e), TRUE), e, "b") EXCEPT !.open[e] = FALSE, !.gone[e] = Data(s, e)]
Destroy(s, e) == [Close(s, e) EXCEPT !.there[e] = FALSE]
DoOk(s, E) ==
  /\ s.there[E.en]
  /\ CASE E.c \in {"k", "m", "D"} -> E.o = "ok"
       [] E.c \in {"c", "g"} -> E.o = (IF s.open[E.en] THEN "ok" ELSE "err")
       [] E.c = "h" -> IF s.open[E.en] THEN E.o = "ok" \/ (E.o = "err" /\ ~s.open[Other(E.en)]) ELSE E.o = "err"
       [] E.c = "y" -> IF ~s.open[E.en] THEN E.o = "err"
                       ELSE /\ E.o = "ok" /\ E.n >= 0
                            /\ LET q == s.pk[Other(E.en)]
                                   all == IF ~Packets(s) THEN s.by[Other(E.en)]
                                          ELSE IF q = <<>> THEN 0
                                          ELSE IF s.kind = "d" THEN q[1].n
                                          ELSE LET RECURSIVE Sum(_)
                                                   Sum(j) == IF j = 0 THEN 0 ELSE q[j].n + Sum(j - 1) IN Sum(Len(q))
                               IN IF Pend(s) = {} /\ ~s.lossy[E.en] THEN E.n = all ELSE s.kind # "d" => E.n <= all
       [] E.c = "i" -> E.o = (IF s.open[E.en] THEN "open" ELSE "closed")
Do(s, E) ==
  CASE E.c = "c" -> CancelEnd(s, E.en)
    [] E.c = "k" -> Close(s, E.en)
    [] E.c = "D" -> Destroy(s, E.en)
    [] E.c = "g" -> CancelEnd(s, E.en)
    [] E.c = "h" -> IF E.o = "ok" THEN Shut(s, E.en, E.how) ELSE s
    [] OTHER -> s
Finish(s) == Close(Close(s, 0), 1)

----------------------------------------------------------------------------
\* Options: a socket remembers what was set, and setting one leaves the others as they are.
Bools == {"debug", "do_not_route", "enable_connection_aborted", "keep_alive", "reuse_address", "no_delay"}
Sizes == {"receive_buffer_size", "send_buffer_size"}
SetOk(s, E) == E.o \in {"ok", "err"} /\ (E.k \in ((Bools \ {"debug"}) \cup Sizes \cup {"linger", "receive_low_watermark"}) /\ s.tcp => (E.o = "ok") = s.on)
Was(s, k) == IF k \in DOMAIN s.opt THEN s.opt[k] ELSE [known |-> FALSE, v |-> 0]
Set(s, E) == IF E.o = "ok" THEN [s EXCEPT !.opt = [k \in DOMAIN @ \cup {E.k} |-> IF k = E.k THEN [known |-> TRUE, v |-> E.v] ELSE @[k]]] ELSE s
GetOk(s, E) ==
  /\ (E.o = "ok") => s.on
  /\ s.on /\ s.tcp => E.o = "ok"
  /\ LET w == Was(s, E.k) IN
     E.o = "ok" /\ w.known =>
       CASE E.k \in Bools -> E.v = w.v
         [] E.k \in Sizes -> E.v >= w.v
         [] E.k = "linger" -> IF w.v % 2 = 1 THEN E.v = w.v ELSE E.v % 2 = 0
         [] OTHER -> E.v = w.v
\* and what was read once stays
Get(s, E) == IF E.o = "ok" THEN Set(s, E) ELSE s
InitO(tcp) == [tcp |-> tcp, on |-> FALSE, opt |-> None]
=============================================================================
