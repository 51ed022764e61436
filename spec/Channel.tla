------------------------------ MODULE Channel ------------------------------
(***************************************************************************)
(* cobalt::channel: bounded FIFO channels between coroutines of one thread *)
(* (limit 0 = rendezvous), with cancellation, interruption, closing, and    *)
(* operations that take part in a race ("selects": a call with several      *)
(* alternatives of which exactly one takes effect).                         *)
(*                                                                          *)
(* All channel state is one record so that every call is a pure function    *)
(* of it; ChannelMC explores it, ChannelTrace checks recorded executions.   *)
(*                                                                          *)
(* S.lim[c]     buffer limit                                                *)
(* S.buf[c]     buffered values, oldest first                               *)
(* S.rq[c]      suspended readers  <<op, alternative>>, oldest first        *)
(* S.wq[c]      suspended writers                                           *)
(* S.closed[c]                                                              *)
(* S.op[o]      alts, how; st: "wait" undecided | "done" decided but not    *)
(*              yet resumed | "ret" returned; res,i,v the outcome; may: the *)
(*              errors it may report although undecided (a race that lost a *)
(*              branch to close() can still be won by another branch);      *)
(*              posted: completion may be reported from a later handler     *)
(* S.acc[c], S.del[c]   history: values accepted / delivered                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLE S

InitS(limits) ==
  [lim |-> limits, buf |-> [c \in DOMAIN limits |-> <<>>],
   rq |-> [c \in DOMAIN limits |-> <<>>], wq |-> [c \in DOMAIN limits |-> <<>>],
   closed |-> [c \in DOMAIN limits |-> FALSE],
   op |-> <<>>,
   acc |-> [c \in DOMAIN limits |-> <<>>], del |-> [c \in DOMAIN limits |-> <<>>]]

Drop(q, o) == SelectSeq(q, LAMBDA e : e[1] # o)

\* operation o is decided: it leaves every queue
Decide(s, o, i, v) ==
  [s EXCEPT !.op[o].st = "done", !.op[o].res = "ok", !.op[o].i = i, !.op[o].v = v,
            !.op[o].may = {}, !.op[o].posted = TRUE,
            !.rq = [c \in DOMAIN s.rq |-> Drop(s.rq[c], o)],
            !.wq = [c \in DOMAIN s.wq |-> Drop(s.wq[c], o)]]

Fail(s, o, r, posted) ==
  [s EXCEPT !.op[o].st = "done", !.op[o].res = r, !.op[o].posted = posted]

Enabled(s, a) ==
  \/ s.closed[a.c]
  \/ /\ a.k = "w"
     /\ s.rq[a.c] # <<>> \/ Len(s.buf[a.c]) < s.lim[a.c]
  \/ /\ a.k = "r"
     /\ s.wq[a.c] # <<>> \/ s.buf[a.c] # <<>>

\* alternative i of o, which is enabled, takes effect
Take(s, o, i) ==
  LET a == s.op[o].alts[i]  c == a.c IN
  IF a.k = "w" THEN
    IF s.closed[c] THEN Fail(s, o, "closed", FALSE)
    ELSE IF s.rq[c] # <<>> THEN
      LET r == Head(s.rq[c])
          s1 == Decide(s, r[1], r[2], a.v)
          s2 == Decide(s1, o, i, 0)
      IN [s2 EXCEPT !.acc[c] = Append(@, a.v), !.del[c] = Append(@, a.v),
                    !.op[o].posted = (s.lim[c] = 0)]
    ELSE [Decide(s, o, i, 0) EXCEPT !.buf[c] = Append(@, a.v), !.acc[c] = Append(@, a.v),
                                    !.op[o].posted = FALSE]
  ELSE
    IF s.buf[c] # <<>> THEN
      LET v == Head(s.buf[c])
          s1 == [Decide(s, o, i, v) EXCEPT !.buf[c] = Tail(@), !.del[c] = Append(@, v),
                                           !.op[o].posted = FALSE]
      IN IF s.wq[c] # <<>> THEN   \* the writer that has waited longest gets the room
           LET w == Head(s.wq[c])  wv == s.op[w[1]].alts[w[2]].v
           IN [Decide(s1, w[1], w[2], 0) EXCEPT !.buf[c] = Append(@, wv), !.acc[c] = Append(@, wv)]
         ELSE s1
    ELSE IF s.wq[c] # <<>> THEN
      LET w == Head(s.wq[c])  wv == s.op[w[1]].alts[w[2]].v
          s1 == Decide(s, w[1], w[2], 0)
      IN [Decide(s1, o, i, wv) EXCEPT !.acc[c] = Append(@, wv), !.del[c] = Append(@, wv)]
    ELSE Fail(s, o, "closed", FALSE)

\* o waits on all of its alternatives; `order` is the order in which it joins the queues
RECURSIVE Enqueue(_, _, _, _)
Enqueue(s, o, order, n) ==
  IF n > Len(order) THEN s
  ELSE LET i == order[n]  a == s.op[o].alts[i] IN
       Enqueue(IF a.k = "r" THEN [s EXCEPT !.rq[a.c] = Append(@, <<o, i>>)]
                            ELSE [s EXCEPT !.wq[a.c] = Append(@, <<o, i>>)], o, order, n + 1)
\* the order matters only between alternatives of one queue; race tries them in any order
Orders(how, alts) ==
  LET D == DOMAIN alts  id == [i \in D |-> i] IN
  IF how = "r" /\ \E i, j \in D : i # j /\ alts[i].k = alts[j].k /\ alts[i].c = alts[j].c
  THEN {f \in [D -> D] : \A i, j \in D : i # j => f[i] # f[j]} ELSE {id}

\* how: "p" plain, "l"/"v" leftmost enabled alternative first, "r" any
Calls(s, o, how, alts) ==
  LET s0 == [s EXCEPT !.op = (o :> [alts |-> alts, how |-> how, st |-> "wait", res |-> "none",
                                    i |-> 0, v |-> 0, may |-> {}, posted |-> FALSE]) @@ @]
      en == {i \in DOMAIN alts : Enabled(s, alts[i])}
      pick == IF how = "r" THEN en ELSE {i \in en : \A j \in en : i <= j}
  IN IF en = {} THEN {Enqueue(s0, o, f, 1) : f \in Orders(how, alts)} ELSE {Take(s0, o, i) : i \in pick}

Waiting(s, o) == o \in DOMAIN s.op /\ s.op[o].st = "wait"

\* cancelling or interrupting an undecided operation withdraws it; a decided one is not affected
CancelS(s, o) ==
  IF ~Waiting(s, o) \/ (s.op[o].how = "p" /\ s.op[o].may # {}) THEN s
  ELSE [s EXCEPT !.op[o].may = @ \cup {"aborted"},
                 !.rq = [c \in DOMAIN s.rq |-> Drop(s.rq[c], o)],
                 !.wq = [c \in DOMAIN s.wq |-> Drop(s.wq[c], o)]]

UsesChan(s, o, c) == \E i \in DOMAIN s.op[o].alts : s.op[o].alts[i].c = c

CloseS(s, c) ==
  [s EXCEPT !.closed[c] = TRUE, !.rq[c] = <<>>, !.wq[c] = <<>>,
            !.op = [o \in DOMAIN s.op |->
                      IF s.op[o].st = "wait" /\ UsesChan(s, o, c)
                      THEN [s.op[o] EXCEPT !.may = @ \cup {"closed"}] ELSE s.op[o]]]

\* may operation o return result r now?
CanReturn(s, o, r) ==
  \/ s.op[o].st = "done" /\ s.op[o].res = r
  \/ s.op[o].st = "wait" /\ r \in s.op[o].may

ReturnS(s, o, r) ==
  [s EXCEPT !.op[o].st = "ret", !.op[o].res = r, !.op[o].may = {},
            !.rq = [c \in DOMAIN s.rq |-> Drop(s.rq[c], o)],
            !.wq = [c \in DOMAIN s.wq |-> Drop(s.wq[c], o)]]

----------------------------------------------------------------------------
\* Properties

\* C01: what was accepted is what was delivered followed by what is still buffered
Conservation == \A c \in DOMAIN S.lim : S.acc[c] = S.del[c] \o S.buf[c]

OkOp(o) == S.op[o].st \in {"done", "ret"} /\ S.op[o].res = "ok"
\* C01: a successful write was accepted exactly once, an unsuccessful one never
Occurs(q, v) == Cardinality({i \in DOMAIN q : q[i] = v})
WritesExact ==
  \A o \in DOMAIN S.op : \A i \in DOMAIN S.op[o].alts :
    LET a == S.op[o].alts[i] IN
    a.k = "w" => Occurs(S.acc[a.c], a.v) = (IF OkOp(o) /\ S.op[o].i = i THEN 1 ELSE 0)
ReadsExact ==
  \A c \in DOMAIN S.lim : \A j \in DOMAIN S.del[c] :
    Cardinality({o \in DOMAIN S.op : OkOp(o) /\ S.op[o].alts[S.op[o].i].k = "r"
                       /\ S.op[o].alts[S.op[o].i].c = c /\ S.op[o].v = S.del[c][j]}) = 1

\* C02
Capacity == \A c \in DOMAIN S.lim : Len(S.buf[c]) <= S.lim[c]
NoLostWakeup ==
  \A c \in DOMAIN S.lim :
    /\ S.rq[c] # <<>> => S.buf[c] = <<>> /\ S.wq[c] = <<>>
    /\ S.wq[c] # <<>> => Len(S.buf[c]) = S.lim[c]
\* every undecided operation that will not fail is queued on every channel it waits for
Queued ==
  \A o \in DOMAIN S.op : S.op[o].st = "wait" /\ S.op[o].may = {} =>
    \A i \in DOMAIN S.op[o].alts : LET a == S.op[o].alts[i] IN
      \E j \in DOMAIN (IF a.k = "r" THEN S.rq[a.c] ELSE S.wq[a.c]) :
         (IF a.k = "r" THEN S.rq[a.c] ELSE S.wq[a.c])[j] = <<o, i>>
\* C03
ClosedQueues == \A c \in DOMAIN S.lim : S.closed[c] => S.rq[c] = <<>> /\ S.wq[c] = <<>>

Inv == Conservation /\ WritesExact /\ ReadsExact /\ Capacity /\ NoLostWakeup /\ Queued /\ ClosedQueues

\* C02: first come, first served: whoever is served, nobody ahead of it in that queue is left waiting
Ahead(q, x, y) == \E i, j \in DOMAIN q : i < j /\ q[i][1] = x /\ q[j][1] = y
Served(o) == S.op[o].st = "wait" /\ S'.op[o].st = "done" /\ S'.op[o].res = "ok"
Overtakes(x, y) ==
  LET a == S.op[y].alts[S'.op[y].i]
      q == IF a.k = "r" THEN S.rq[a.c] ELSE S.wq[a.c]
  IN x # y /\ Ahead(q, x, y) /\ Waiting(S', x)
FCFS == [][\A x, y \in DOMAIN S.op : ~(Served(y) /\ Overtakes(x, y))]_S
\* C03: closing is final, and what has been accepted or decided stays
Stable ==
  [][/\ \A c \in DOMAIN S.lim : S.closed[c] => S'.closed[c] /\ S'.acc[c] = S.acc[c]
     /\ \A o \in DOMAIN S.op : S.op[o].st # "wait" =>
          S'.op[o].res = S.op[o].res /\ S'.op[o].v = S.op[o].v /\ S'.op[o].i = S.op[o].i]_S
=============================================================================
