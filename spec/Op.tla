--------------------------------- MODULE Op ---------------------------------
(***************************************************************************)
(* Awaiting asio operations: op, use_op, deferred, noop and compositions.    *)
(*                                                                          *)
(* The program S.p: kind of the root coroutine; aw, the operations it awaits *)
(* one after the other (records n, f: the form d(irect), r(esult), t(uple)); *)
(* op[n], the operations:                                                    *)
(*   src  "o" hand coded, "u" use_op, "d" deferred, "n" noop, "c" composition, *)
(*        "g" an awaitable of the user's own, that knows nothing of cobalt     *)
(*   sig  the completion signature;  out "o" or "e"(rror)                     *)
(*   rdy  "r" it is ready, "t" asking whether it is ready throws              *)
(*   steps  what the operation does once initiated (see harness/op.cpp)       *)
(*   kids what a composition awaits;  par the composition that awaits it or 0 *)
(*                                                                          *)
(* The execution is deterministic: stk is the stack of what is going on (top  *)
(* last), q the queue of the executor.  Step(s) is the next step; it may show *)
(* an event.  live: coroutine frames; thr: the exception leaving the current  *)
(* handler; ct: type of the cancellation being delivered; dq: types of those  *)
(* in the queue.  Observable demands: see OpMC.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLE S
None == [e |-> ""]

InitS(p) ==
  LET N == DOMAIN p.op IN
  [p |-> p, stk |-> <<>>, q |-> <<>>,
   pc |-> [n \in N |-> 0], st |-> [n \in N |-> "idle"], ini |-> [n \in N |-> FALSE], now |-> [n \in N |-> ""],
   pos |-> [c \in {0} \cup N |-> 0], co |-> [c \in {0} \cup N |-> "none"], live |-> 0, thr |-> 0,
   ct |-> "", dq |-> <<>>]

Top(s) == s.stk[Len(s.stk)]
Pop(s) == [s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
Push(s, items) == [s EXCEPT !.stk = @ \o items]        \* the last one is executed first
Enq(s, k, n) == [s EXCEPT !.q = Append(@, [k |-> k, n |-> n])]
Ret(s, e) == [s |-> s, e |-> e]
I(k, n) == [k |-> k, n |-> n]

Awaits(s, c) == IF c = 0 THEN s.p.aw ELSE [i \in DOMAIN s.p.op[c].kids |-> [n |-> s.p.op[c].kids[i], f |-> "t"]]
Form(s, n) ==
  IF s.p.op[n].par # 0 THEN "t" ELSE s.p.aw[CHOOSE i \in DOMAIN s.p.aw : s.p.aw[i].n = n].f

NVal(sig) == CASE sig \in {"i", "m", "E", "M", "X"} -> 1 [] sig \in {"I", "F", "Y"} -> 2 [] OTHER -> 0
ErrKind(sig) == CASE sig \in {"e", "E", "F", "M"} -> "ec" [] sig \in {"x", "X", "Y"} -> "ep" [] OTHER -> ""
Vals(n, sig) == [i \in 1..NVal(sig) |-> n * 10 + i]
\* the outcome as everyone must report it
Outcome(s, n, aborted) ==
  LET o == s.p.op[n] IN
  IF o.src = "g" THEN (IF o.out = "e" THEN "x" \o ToString(n) ELSE "ok")
  ELSE IF ErrKind(o.sig) = "" THEN "ok"
  ELSE IF aborted THEN "aborted"
  ELSE IF o.out = "e" THEN (IF ErrKind(o.sig) = "ec" THEN "e" ELSE "x" \o ToString(n))
  ELSE "ok"
\* the values in a tuple: next to an error that was thrown there are none but default constructed ones
TVals(s, n) == LET o == s.p.op[n] IN IF o.src = "g" /\ o.out = "e" THEN [i \in 1..NVal(o.sig) |-> 0] ELSE Vals(n, o.sig)
\* ... in the form it was asked for: a value or an exception, a result, a tuple
Res(s, n, o) ==
  LET f == Form(s, n)  sig == s.p.op[n].sig IN
  CASE f = "d" -> IF o = "ok" THEN [e |-> "res", n |-> n, k |-> "v", o |-> o, v |-> Vals(n, sig)]
                  ELSE [e |-> "res", n |-> n, k |-> "thrown", o |-> o, v |-> <<>>]
    [] f = "r" -> IF o = "ok" THEN [e |-> "res", n |-> n, k |-> "rv", o |-> o, v |-> Vals(n, sig)]
                  ELSE [e |-> "res", n |-> n, k |-> "re", o |-> o, v |-> <<>>]
    [] f = "t" -> [e |-> "res", n |-> n, k |-> "t", o |-> o, v |-> TVals(s, n)]
    \* both, one around the other: noop and the user's own only
    [] f = "T" -> IF o = "ok" THEN [e |-> "res", n |-> n, k |-> "trv", o |-> o, v |-> Vals(n, sig)]
                  ELSE [e |-> "res", n |-> n, k |-> "tre", o |-> o, v |-> <<>>]
    [] f = "R" -> [e |-> "res", n |-> n, k |-> "rt", o |-> o, v |-> TVals(s, n)]
\* the operation could not be initiated
Thrown(s, n) == [e |-> "res", n |-> n, k |-> "thrown", o |-> "x" \o ToString(n), v |-> <<>>]

Ev(name, n) == [e |-> name, n |-> n]

\* the handler of n is dropped: its coroutine is destroyed, but not from inside the initiation
Drop(s, n) == IF s.ini[n] THEN [s EXCEPT !.st[n] = "done", !.now[n] = "drop"]
              ELSE Push([s EXCEPT !.st[n] = "done"], <<I("kill", s.p.op[n].par)>>)
\* n completes: its coroutine is resumed, but not from inside the initiation
Finish(s, n, o) ==
  IF s.ini[n] THEN [s EXCEPT !.st[n] = "done", !.now[n] = o]
  ELSE Push([s EXCEPT !.st[n] = "done", !.now[n] = o], <<I("res", n)>>)

\* a step of operation n
Run(s, n) ==
  LET o == s.p.op[n]
      k == s.pc[n] + 1
      c == IF k <= Len(o.steps) THEN o.steps[k] ELSE "c"
      s1 == [Pop(s) EXCEPT !.pc[n] = k]
  IN CASE c = "i" -> IF s.ini[n] THEN Ret(Push(s1, <<I("ret", n), I("run", n)>>), Ev("imm", n))
                     ELSE Ret(Enq(s1, "imm", n), None)
       [] c = "p" -> Ret(Enq(s1, "post", n), None)
       [] c = "n" -> IF s.ini[n] THEN Ret(Push(s1, <<I("run", n)>>), Ev("nest", n))
                     ELSE Ret(Push(Enq(s1, "nest", n), <<I("run", n)>>), None)
       [] c \in {"l", "f"} -> Ret(Push(s1, <<I("run", n)>>), None)
       [] c \in {"h", "H", "j"} -> Ret([s1 EXCEPT !.st[n] = c], None)
       [] c = "x" -> Ret(IF s.ini[n]
                         \* everything up to the initiation is unwound, and the await reports it
                         THEN LET j == CHOOSE j \in DOMAIN s1.stk : s1.stk[j] = I("iret", n) IN
                              Push([s1 EXCEPT !.stk = SubSeq(@, 1, j - 1), !.ini[n] = FALSE, !.st[n] = "done"], <<I("thr", n)>>)
                         ELSE Push([s1 EXCEPT !.stk = <<>>, !.st[n] = "done", !.thr = n], <<I("kill", o.par)>>),
                         Ev("throw", n))
       [] c = "d" -> Ret(Drop(s1, n), Ev("drop", n))
       [] c = "c" -> Ret(Finish(s1, n, Outcome(s, n, FALSE)), Ev("comp", n))

\* coroutine c goes on
Co(s, c) ==
  LET s1 == Pop(s)  i == s.pos[c] + 1  a == Awaits(s, c) IN
  IF i > Len(a) THEN Ret(Push([s1 EXCEPT !.co[c] = "fin"], <<I("end", c)>>), Ev("fin", c))
  ELSE LET n == a[i].n
           o == s.p.op[n]
           s2 == [s1 EXCEPT !.pos[c] = i, !.co[c] = "wait"]
       IN IF o.src = "n" THEN Ret(Push([s2 EXCEPT !.now[n] = "ok", !.st[n] = "done"], <<I("res", n)>>), None)
          ELSE IF o.src \in {"o", "g"} THEN
            Ret(CASE o.rdy = "t" -> Push([s2 EXCEPT !.st[n] = "done"], <<I("thr", n)>>)
                  [] o.rdy = "r" -> Push([s2 EXCEPT !.now[n] = Outcome(s, n, FALSE), !.st[n] = "done"], <<I("res", n)>>)
                  [] OTHER -> Push(s2, <<I("init", n)>>), Ev("ready", n))
          ELSE Ret(Push(s2, <<I("init", n)>>), None)

\* the operation a cancellation of the root reaches
RECURSIVE Innermost(_, _)
Innermost(s, c) ==
  IF s.co[c] # "wait" THEN 0
  ELSE LET n == Awaits(s, c)[s.pos[c]].n IN
       IF s.p.op[n].src = "c" THEN Innermost(s, n)
       ELSE IF s.st[n] \in {"h", "H", "j"} /\ s.p.op[n].src # "g" THEN n ELSE 0
Deliver(s, t) == LET n == Innermost(s, 0) IN IF n = 0 THEN s ELSE [Push(s, <<I("canc", n)>>) EXCEPT !.ct = t]
\* n hears of it
Cancelled(s, n) ==
  CASE s.st[n] = "h" -> Push([s EXCEPT !.st[n] = "act"], <<I("ret", n), I("acomp", n)>>)
    [] s.st[n] = "H" -> Enq([s EXCEPT !.st[n] = "act"], "abt", n)
    [] OTHER -> s

Step(s) ==
  LET n == Top(s).n  s1 == Pop(s) IN
  CASE Top(s).k = "co" -> Co(s, n)
    [] Top(s).k = "init" ->
         Ret(Push([s1 EXCEPT !.ini[n] = TRUE, !.st[n] = "act", !.live = @ + (IF s.p.op[n].src = "c" THEN 1 ELSE 0)],
                  <<I("iret", n)>> \o (IF s.p.op[n].src = "c" THEN <<I("co", n)>> ELSE <<I("run", n)>>)),
             Ev("init", n))
    [] Top(s).k = "run" -> Run(s, n)
    [] Top(s).k = "iret" ->      \* the initiation is over
         Ret(LET s2 == [s1 EXCEPT !.ini[n] = FALSE] IN
             CASE s.now[n] = "" -> s2
               [] s.now[n] = "drop" -> Push(s2, <<I("kill", s.p.op[n].par)>>)
               [] OTHER -> Push(s2, <<I("res", n)>>),
             Ev("ret", n))
    [] Top(s).k = "ret" -> Ret(s1, Ev("ret", n))
    [] Top(s).k = "res" -> Ret(Push(s1, <<I("co", s.p.op[n].par)>>), Res(s, n, s.now[n]))
    [] Top(s).k = "thr" -> Ret(Push(s1, <<I("co", s.p.op[n].par)>>), Thrown(s, n))
    [] Top(s).k = "end" ->       \* n is a coroutine that has finished
         Ret(LET s2 == [s1 EXCEPT !.live = @ - 1] IN
             IF n # 0 THEN Finish(s2, n, Outcome(s, n, FALSE))
             ELSE IF s.p.kind = "t" THEN Enq(s2, "done", 0) ELSE s2,
             Ev("gone", n))
    [] Top(s).k = "kill" ->      \* n is a coroutine that is destroyed
         Ret(LET s2 == [s1 EXCEPT !.co[n] = "dead", !.live = @ - 1] IN IF n # 0 THEN Drop(s2, n) ELSE s2,
             Ev("gone", n))
    \* an entry of the queue
    [] Top(s).k = "imm" -> Ret(Push(s1, <<I("ret", n), I("run", n)>>), Ev("imm", n))
    [] Top(s).k = "post" -> Ret(Push(s1, <<I("ret", n), I("run", n)>>), Ev("post", n))
    [] Top(s).k = "nest" -> Ret(s1, Ev("nest", n))
    [] Top(s).k = "abt" -> Ret(Push(s1, <<I("ret", n), I("acomp", n)>>), Ev("post", n))
    [] Top(s).k = "acomp" -> Ret(Finish(s1, n, Outcome(s, n, TRUE)), Ev("comp", n))
    [] Top(s).k = "start" -> Ret(Push([s1 EXCEPT !.live = 1], <<I("co", 0)>>), None)
    [] Top(s).k = "done" -> Ret(s1, None)
    [] Top(s).k = "X" -> Ret([Deliver(s1, Head(s.dq)) EXCEPT !.dq = Tail(@)], None)
    [] Top(s).k = "canc" -> Ret([Cancelled(s1, n) EXCEPT !.ct = ""], [e |-> "canc", n |-> n, t |-> s.ct])
    [] Top(s).k = "xdrop" -> Ret(Drop(s1, n), Ev("drop", n))
    [] Top(s).k = "unborn" -> Ret(s1, None)      \* a task that never started

Busy(s) == s.stk # <<>>

\* the commands
Go(s) == IF s.p.kind = "t" THEN Enq(s, "start", 0) ELSE Push([s EXCEPT !.live = 1], <<I("co", 0)>>)
Held(s, n) == n \in DOMAIN s.st /\ s.st[n] \in {"h", "H", "j"}
Cont(s, n) == Push([s EXCEPT !.st[n] = "act"], <<I("ret", n), I("run", n)>>)
DropHeld(s, n) == Push(s, <<I("xdrop", n)>>)
\* a spawned task is cancelled through its executor
Cancel(s, t) == IF s.p.kind = "t" THEN [Enq(s, "X", 0) EXCEPT !.dq = Append(@, t)] ELSE Deliver(s, t)
Poll(s) == IF s.q = <<>> THEN s ELSE Push([s EXCEPT !.q = Tail(@)], <<Head(s.q)>>)
\* the context is destroyed: all that is queued goes
Flush(s) == LET h == SelectSeq(s.q, LAMBDA x : x.k \in {"imm", "post", "abt", "start"}) IN
            Push([s EXCEPT !.q = <<>>],
                 [i \in 1..Len(h) |-> LET x == h[Len(h) + 1 - i] IN
                    IF x.k = "start" THEN I("unborn", 0) ELSE I("kill", s.p.op[x.n].par)])
=============================================================================
