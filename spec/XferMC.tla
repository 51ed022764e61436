------------------------------- MODULE XferMC -------------------------------
(* Every transfer of up to MaxTotal bytes over every script of up to MaxSteps steps, and every history of up to  *)
(* MaxCmds commands.                                                                                             *)
EXTENDS Xfer, TLC, Json
CONSTANTS MaxTotal, MaxSteps, MaxCmds, Emit
VARIABLES hist, wire, asked, ph
vars == <<S, hist, wire, asked, ph>>
view == <<S, Len(hist), wire, asked, ph>>

Hows == {"r", "i", "p", "h", "j"}
Scripts == UNION {[1..k -> [n : 0..2, how : Hows, err : {FALSE}]] : k \in 0..MaxSteps}
Err(s) == IF Len(s) = 0 THEN {s} ELSE {s, [s EXCEPT ![Len(s)].err = TRUE]}
Init == /\ \E t \in 0..MaxTotal, q \in Scripts, kd \in {"r", "W"}, f \in {"d", "t"} : \E s \in Err(q) :
             S = InitS([kind |-> kd, form |-> f, total |-> t, off |-> 3, steps |-> s])
        /\ hist = <<>> /\ wire = <<>> /\ asked = <<>> /\ ph = "go"
Inner == \/ /\ S.st = "run" /\ S' = Step(S)
            /\ wire' = wire \o [i \in 1..(S'.mv - S.mv) |-> StepEv(S).at + i]
            /\ asked' = Append(asked, [st |-> S.o, ev |-> StepEv(S), canc |-> S.canc])
            /\ UNCHANGED <<hist, ph>>
         \/ ph = "Q" /\ Posted(S) /\ S' = Done(S) /\ UNCHANGED <<hist, wire, asked, ph>>
         \/ S.st = "fin" /\ ph # "" /\ S' = Told(S) /\ UNCHANGED <<hist, wire, asked, ph>>
Cmd(s, c) == S' = s /\ hist' = Append(hist, [c |-> c]) /\ ph' = (IF c = "Q" THEN "Q" ELSE "go") /\ UNCHANGED <<wire, asked>>
Quiet == S.st # "run" /\ (ph = "Q" => ~Posted(S) /\ S.st # "fin")
Env == /\ Quiet /\ Len(hist) < MaxCmds
       /\ \/ S.st = "idle" /\ Cmd(Go(S), "go")
          \/ Held(S) /\ Cmd(Done(S), "C")
          \/ S.st \in {"out", "fin"} /\ Cmd(Cancel(S), "X")
          \/ S.st # "idle" /\ hist[Len(hist)].c # "Q" /\ Cmd(S, "Q")
Next == Inner \/ Env
Spec == Init /\ [][Next]_vars /\ WF_vars(Inner)
EmitGen == IF Emit /\ Len(hist') > Len(hist) /\ Len(hist') > 1
           THEN PrintT("GEN " \o ToJson([p |-> S.p, h |-> hist'])) ELSE TRUE

----------------------------------------------------------------------------
\* every byte is moved once, in order, to or from its place
Wire == wire = [i \in 1..S.mv |-> i]
Account == S.pos = S.mv - (IF S.st = "out" THEN S.cur.n ELSE 0)
\* the stream is asked for the rest, and not at all once there is none, it failed or it was cancelled
Rest == \A i \in DOMAIN asked : LET a == asked[i] IN
          /\ a.st = "" /\ ~a.canc /\ a.ev.len > 0 /\ a.ev.at + a.ev.len = S.p.total /\ a.ev.k = i
          /\ At(S) => a.ev.off - a.ev.at = S.p.off
Result == S.st \in {"fin", "told"} =>
            /\ S.o = "ok" => S.pos = S.p.total
            /\ S.o = "ok" \/ S.p.form = "t" => ResEv(S).n = S.mv
            /\ S.o = "aborted" => \E i \in DOMAIN hist : hist[i].c = "X"
            /\ S.o = "eof" => S.k \in DOMAIN S.p.steps /\ S.p.steps[S.k].err
            /\ S.pos < S.p.total => S.o # "ok"
\* a transfer waits only for the stream
Awake == ph = "Q" /\ Quiet => S.st = "told" \/ Held(S)
=============================================================================
