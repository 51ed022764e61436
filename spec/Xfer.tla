-------------------------------- MODULE Xfer --------------------------------
(* Composed transfers: io::read, io::write, io::read_at and io::write_at move a buffer sequence with as many     *)
(* partial transfers of the stream as it takes.  The stream does what a script says.                              *)
(*   p = [kind |-> "r" | "w" | "R" | "W" (at an offset), form |-> "d" | "r" | "t" | "j", total, off,              *)
(*        steps |-> <<[n |-> most it transfers, how |-> h, err |-> BOOLEAN]>>]                                    *)
(* how: "r" ready when asked, "i" inline, "p" posted, "h" held until completed or cancelled, "j" the same, but    *)
(* deaf to cancellation.  Once the script is over the stream transfers what it is given, inline.                  *)
EXTENDS Integers, Sequences
VARIABLE S

InitS(p) == [p |-> p, st |-> "idle",   \* "run": about to step, "out": in a step, "fin": over, "told": the awaiter knows
             pos |-> 0,                \* bytes the transfer has accounted for
             mv |-> 0,                 \* bytes the stream has moved
             k |-> 0, cur |-> [n |-> 0, how |-> "i", err |-> FALSE],
             canc |-> FALSE, o |-> ""]
Min(a, b) == IF a < b THEN a ELSE b
Left(s) == s.p.total - s.pos
At(s) == s.p.kind \in {"R", "W"}
Script(s, k) == IF k \in DOMAIN s.p.steps THEN s.p.steps[k] ELSE [n |-> 1000, how |-> "i", err |-> FALSE]

\* it goes on as long as there is something to move and nobody cancelled it
Norm(s) == IF s.st = "run" /\ (Left(s) = 0 \/ s.canc) THEN [s EXCEPT !.st = "fin", !.o = IF s.canc THEN "aborted" ELSE "ok"] ELSE s
Over(s, o) == LET t == [s EXCEPT !.pos = @ + s.cur.n] IN
              IF o # "ok" THEN [t EXCEPT !.st = "fin", !.o = o] ELSE Norm([t EXCEPT !.st = "run"])
Done(s) == Over(s, IF s.cur.err THEN "eof" ELSE "ok")

Go(s) == Norm([s EXCEPT !.st = "run"])
\* what the stream is asked for: the rest, no more and no less
StepEv(s) == [e |-> "step", k |-> s.k + 1, off |-> IF At(s) THEN s.p.off + s.pos ELSE 0, at |-> s.pos, len |-> Left(s)]
Step(s) == LET c == Script(s, s.k + 1)
               n == Min(c.n, Left(s))
               t == [s EXCEPT !.k = @ + 1, !.cur = [c EXCEPT !.n = n], !.mv = @ + n, !.st = "out"]
           IN IF c.how \in {"r", "i"} THEN Done(t) ELSE t
Posted(s) == s.st = "out" /\ s.cur.how = "p"
Held(s) == s.st = "out" /\ s.cur.how \in {"h", "j"}
Cancel(s) == IF s.st # "out" THEN s
             ELSE LET t == [s EXCEPT !.canc = TRUE] IN IF s.cur.how = "h" THEN Over(t, "aborted") ELSE t
\* errors thrown by the awaiting forms come without a number
ResEv(s) == [e |-> "res", o |-> s.o, n |-> IF s.o # "ok" /\ s.p.form # "t" THEN 0 - 1 ELSE s.pos]
Told(s) == [s EXCEPT !.st = "told"]

----------------------------------------------------------------------------
\* Buffer sequences: what is left of one is a suffix of the user's buffers.
Drop(s, n) == [s EXCEPT !.pos = Min(@ + n, s.p.total)]
Obs(s, how) == [e |-> "obs", how |-> how, at |-> IF Left(s) = 0 THEN 0 - 1 ELSE s.pos, len |-> Left(s), n |-> TRUE]
Looks == <<"post", "pre", "index", "back", "plus", "minus", "postdec", "visit", "size">>
=============================================================================
