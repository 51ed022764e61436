-------------------------------- MODULE File --------------------------------
(* Files: stream_file, that reads and writes where it is, and random_access_file, that does so where it is told.  *)
(* File 0 exists, 1 does not, 2 is a fifo and 3 cannot exist.  What is opened is an open file of the system, that *)
(* several objects can share; an object is closed or refers to one.                                               *)
EXTENDS Integers, Sequences
VARIABLE S

Absent == <<0 - 1>>
None == [i \in {} |-> 0]
First == <<201, 202, 203>>
InitS == [fs |-> [f \in 0..2 |-> IF f = 0 THEN First ELSE IF f = 1 THEN Absent ELSE <<>>],
          d |-> <<>>,                          \* the open files: [f: file, pos, r, w, app]
          h |-> None,                          \* the objects: [t: "s" or "r", d: open file, or 0]
          ops |-> None]                        \* the pending operations: [h, o, n, d], o = "" while it waits
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
With(g, i, v) == [j \in DOMAIN g \cup {i} |-> IF j = i THEN v ELSE g[j]]
Without(g, i) == [j \in DOMAIN g \ {i} |-> g[j]]

IsOpen(s, h) == s.h[h].d # 0
D(s, h) == s.d[s.h[h].d]
Fifo(s, h) == IsOpen(s, h) /\ D(s, h).f = 2
Content(s, h) == s.fs[D(s, h).f]

----------------------------------------------------------------------------
\* Reading and writing: both the new state and what comes of it, [o, n, d]
R(s, o, n, d) == [s |-> s, r |-> [o |-> o, n |-> n, d |-> d]]
Bytes(c, from, n) == SubSeq(c, from + 1, from + n)
Written(c, at, b) == [j \in 1..Max(Len(c), at + Len(b)) |->
                        IF j > at /\ j <= at + Len(b) THEN b[j - at] ELSE IF j <= Len(c) THEN c[j] ELSE 0]
\* what the command number k writes
Data(k, n) == [j \in 1..n |-> (k * 8 + j - 1) % 256]
Move(s, h, p) == [s EXCEPT !.d[s.h[h].d].pos = p]
\* c: "R" or "W"; a random_access_file first goes to off
Do(s, c, h, off, b, n) ==
  IF ~IsOpen(s, h) THEN R(s, "err", 0, <<>>)
  ELSE LET s0 == IF s.h[h].t = "r" THEN Move(s, h, off) ELSE s
           X == D(s0, h)
           txt == Content(s0, h)
       IN IF X.f = 2
          THEN IF c = "W" THEN R([s EXCEPT !.fs[2] = @ \o b], "ok", n, <<>>)
               ELSE IF n = 0 THEN R(s, "ok", 0, <<>>)
               ELSE IF txt = <<>> THEN R(s, "", 0, <<>>)
               ELSE LET m == Min(n, Len(txt)) IN R([s EXCEPT !.fs[2] = SubSeq(@, m + 1, Len(@))], "ok", m, Bytes(txt, 0, m))
          ELSE IF n = 0 THEN R(s0, "ok", 0, <<>>)
          ELSE IF c = "R"
          THEN IF ~X.r THEN R(s0, "err", 0, <<>>)
               ELSE LET m == Max(0, Min(n, Len(txt) - X.pos)) IN
                    IF m = 0 THEN R(s0, "eof", 0, <<>>) ELSE R(Move(s0, h, X.pos + m), "ok", m, Bytes(txt, X.pos, m))
          ELSE IF ~X.w THEN R(s0, "err", 0, <<>>)
               ELSE LET at == IF X.app THEN Len(txt) ELSE X.pos IN
                    R(Move([s0 EXCEPT !.fs[X.f] = Written(@, at, b)], h, at + n), "ok", n, <<>>)
\* until it is all done: reading ends early at the end of the file
DoAll(s, c, h, off, b, n) ==
  LET x == Do(s, c, h, off, b, n) IN
  IF n = 0 THEN R(s, "ok", 0, <<>>)
  ELSE IF c = "R" /\ x.r.o = "ok" /\ x.r.n < n THEN [x EXCEPT !.r.o = "eof"] ELSE x
\* nothing at all can be read from and written to a closed file
NoopClosed(s, h, n) == n = 0 /\ ~IsOpen(s, h)
Start(s, i, c, h, off, n) ==
  LET x == Do(s, c, h, off, Data(i, n), n) IN
  [x.s EXCEPT !.ops = With(@, i, [h |-> h, o |-> x.r.o, n |-> x.r.n, d |-> x.r.d, m |-> n,
                                  any |-> NoopClosed(s, h, n), c |-> c])]
\* the reader of a fifo is served once there is something
Serve(s, i) == LET p == s.ops[i]
                   m == Min(p.m, Len(s.fs[2]))
               IN IF p.o = "" /\ s.fs[2] # <<>>
                  THEN [s EXCEPT !.ops[i] = [p EXCEPT !.o = "ok", !.n = m, !.d = Bytes(s.fs[2], 0, m)],
                                 !.fs[2] = SubSeq(@, m + 1, Len(@))]
                  ELSE s
Stop(s, is) == [s EXCEPT !.ops = [i \in DOMAIN @ |-> IF i \in is /\ @[i].o = "" THEN [@[i] EXCEPT !.o = "aborted"] ELSE @[i]]]
Of(s, h) == {i \in DOMAIN s.ops : s.ops[i].h = h}
Due(s, i) == Serve(s, i).ops[i].o # ""
\* what the awaiter sees of the result r in form f
Shown(o, f, n) == IF o = "ok" \/ f = "t" THEN n ELSE 0 - 1
Done(s, i) == [s EXCEPT !.ops = Without(@, i)]

----------------------------------------------------------------------------
\* Opening: fl = [m: "r" | "w" | "b", app, cr, ex, tr]
CanOpen(s, f, fl) == IF f = 3 THEN FALSE
                     ELSE IF s.fs[f] = Absent THEN fl.cr ELSE ~(fl.cr /\ fl.ex)
Opened(s, f, fl) == LET e == IF s.fs[f] = Absent \/ (fl.tr /\ f # 2) THEN <<>> ELSE s.fs[f] IN
                    [s EXCEPT !.fs[f] = e,
                              !.d = Append(@, [f |-> f, pos |-> 0, r |-> fl.m # "w", w |-> fl.m # "r", app |-> fl.app])]
New(s, h, t) == [s EXCEPT !.h = With(@, h, [t |-> t, d |-> 0])]
Refer(s, h, d) == [s EXCEPT !.h[h].d = d]
Open(s, h, f, fl) == LET t == Opened(s, f, fl) IN Refer(t, h, Len(t.d))
\* a fifo that nobody has open is empty
Drained(s) == IF \E h \in DOMAIN s.h : Fifo(s, h) THEN s ELSE [s EXCEPT !.fs[2] = <<>>]
Close(s, h) == Drained(Refer(Stop(s, Of(s, h)), h, 0))
Moved(s, h, h2) == Refer([s EXCEPT !.h = With(@, h2, s.h[h])], h, 0)
Delete(s, h) == LET t == Stop(s, Of(s, h)) IN Drained([t EXCEPT !.h = Without(@, h)])

\* Where it goes, or < 0
Target(s, h, a, wh) == a + (IF wh = "S" THEN 0 ELSE IF wh = "C" THEN D(s, h).pos ELSE Len(Content(s, h)))
CanSeek(s, h, a, wh) == IsOpen(s, h) /\ ~Fifo(s, h) /\ Target(s, h, a, wh) >= 0
Resize(s, h, n) == [s EXCEPT !.fs[D(s, h).f] = [j \in 1..n |-> IF j <= Len(@) THEN @[j] ELSE 0]]
CanResize(s, h) == IsOpen(s, h) /\ ~Fifo(s, h) /\ D(s, h).w
=============================================================================
