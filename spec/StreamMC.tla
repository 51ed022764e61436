------------------------------ MODULE StreamMC ------------------------------
(* Every history of up to MaxCmds commands on a pipe or a pair of sockets, with everything the system may answer.*)
EXTENDS Stream, TLC, Json
CONSTANTS Kinds, MaxCmds, MaxOps, Emit
VARIABLES hist, ph, nops, sent, wr, rd, last
vars == <<S, hist, ph, nops, sent, wr, rd, last>>
view == <<S, Len(hist), ph, nops, sent, wr, rd, last>>
BigMC == 1
Sizes_ == {1, 2}

NoRes == [o |-> "", i |-> 0, c |-> "", e |-> 0, told |-> FALSE, left |-> 0]
Init == \E k \in Kinds : S = InitS(k) /\ hist = <<>> /\ ph = "idle" /\ nops = 0 /\ last = NoRes
        /\ sent = [e \in Ends |-> 0] /\ wr = [e \in Ends |-> 0] /\ rd = [e \in Ends |-> <<>>]
Cmd(s, h) == S' = s /\ hist' = Append(hist, h) /\ ph' = "idle" /\ last' = NoRes /\ UNCHANGED <<wr, rd>>
H(c, e) == [c |-> c, e |-> e]
Busy(e, cs) == \E i \in Pend(S) : S.ops[i].e = e /\ S.ops[i].c \in cs
Can(c, e) == /\ S.there[e]
             /\ IF c \in Writes THEN ~Busy(e, Writes) /\ ~(S.kind = "p" /\ e = 0)
                ELSE ~Busy(e, Reads \cup {"V"}) /\ ~(S.kind = "p" /\ (e = 1 \/ c = "V"))
             /\ c \in {"A", "B"} => ~Packets(S)
             /\ c = "K" => S.kind = "q"
OpCmd == \E c \in {"R", "A", "K", "W", "B", "V"}, e \in Ends, n \in Sizes_ :
           /\ nops < MaxOps /\ Can(c, e) /\ (c = "V" => n = 1)
           /\ LET i == nops + 1
                  f == IF c = "B" THEN "t" ELSE "d"
                  k == IF c = "W" /\ Packets(S) THEN sent[e] + 1 ELSE 0
              IN /\ Cmd(Start(S, i, c, e, n, f, "r", k), [c |-> "op", d |-> c, e |-> e, n |-> IF n = 2 /\ c \in Writes /\ ~Packets(S) THEN 9 ELSE n, f |-> f, i |-> i])
                 /\ sent' = [sent EXCEPT ![e] = @ + (IF c = "W" /\ Packets(S) THEN 1 ELSE 0)]
           /\ nops' = nops + 1
Composed(e) == Busy(e, {"A", "B"})
Env == /\ ph = "idle" /\ Len(hist) < MaxCmds
       /\ \/ OpCmd
          \/ /\ UNCHANGED <<nops, sent>>
             /\ \/ \E i \in Pend(S) : Cmd(Stop(S, i, TRUE), [c |-> "X", i |-> i])
                \/ \E e \in Ends : S.there[e] /\ S.open[e] /\
                     \/ Pend(S) # {} /\ Cmd(CancelEnd(S, e), H("c", e))
                     \/ Cmd(Close(S, e), H("k", e))
                     \/ ~Composed(e) /\ Cmd(Destroy(S, e), H("D", e))
                     \/ S.kind # "p" /\ \E w \in {"r", "w"} : Cmd(Shut(S, e, w), [c |-> "h", e |-> e, w |-> w])
                     \/ Pend(S) # {} /\ ~Composed(e) /\ Cmd(CancelEnd(S, e), H("g", e))
                \/ Pend(S) # {} /\ S' = S /\ hist' = Append(hist, [c |-> "Q"]) /\ ph' = "Q" /\ last' = NoRes /\ UNCHANGED <<wr, rd>>
Outs == {"ok", "eof", "aborted", "err"}
PackNos == 0..MaxOps
Result == /\ ph = "Q" /\ UNCHANGED <<hist, ph, nops, sent>>
          /\ \E i \in Pend(S), o \in Outs, n \in {0 - 1, 0, 1, 2}, got \in {0, 1, 2}, k \in PackNos :
               /\ S.ops[i].c \notin Reads => k = 0
               /\ ResOk(S, i, o, n, got, k)
               /\ LET p == S.ops[i] IN
                  /\ (p.c = "V" => n = 0 /\ got = 0)
                  /\ S' = Done(S, i, o, n, got)
                  /\ last' = [o |-> o, i |-> i, c |-> p.c, e |-> p.e, told |-> p.x, left |-> Flow(S', Other(p.e))]
                  /\ wr' = IF p.c \in Writes /\ (Packets(S) => o = "ok") THEN [wr EXCEPT ![p.e] = @ + (IF Packets(S) THEN 1 ELSE IF n < 0 THEN 0 ELSE n)] ELSE wr
                  /\ rd' = IF p.c \in Reads \ {"K"} /\ got > 0 THEN [rd EXCEPT ![p.e] = @ \o (IF Packets(S) THEN <<k>> ELSE [j \in 1..got |-> 1])] ELSE rd
Back == ph = "Q" /\ (\A i \in Pend(S) : ~Due(S, i)) /\ ph' = "idle" /\ last' = NoRes /\ UNCHANGED <<S, hist, nops, sent, wr, rd>>
Next == Env \/ Result \/ Back
Spec == Init /\ [][Next]_vars
EmitGen == IF Emit /\ Len(hist') > Len(hist) /\ Len(hist') > 1
           THEN PrintT("GEN " \o ToJson([kind |-> S.kind, h |-> hist'])) ELSE TRUE

----------------------------------------------------------------------------
RECURSIVE Sum(_, _)
Sum(f, is) == IF is = {} THEN 0 ELSE LET i == CHOOSE j \in is : TRUE IN f[i] + Sum(f, is \ {i})
Unreported(e) == {i \in Pend(S) : S.ops[i].e = e /\ S.ops[i].c \in Writes /\ ~S.ops[i].bad /\ ~S.ops[i].dead}
\* every byte that was taken is read once or still on its way
Conserved == ~Packets(S) => \A e \in Ends :
               /\ S.by[e] >= 0
               /\ wr[e] + Sum([i \in Unreported(e) |-> S.ops[i].n], Unreported(e)) = Len(rd[Other(e)]) + S.by[e]
\* packets arrive in the order they were sent, none twice
InOrder == Packets(S) => \A e \in Ends : \A i, j \in DOMAIN rd[e] : i < j => rd[e][i] < rd[e][j]
Sent == Packets(S) => \A e \in Ends : \A i \in DOMAIN rd[e] : rd[e][i] <= sent[Other(e)]
\* the end comes after everything else
AtEnd == last.o = "eof" => last.left = 0
\* nothing is aborted that was not told to
Told == last.o = "aborted" => last.told
\* whatever has to complete can
Possible == ph = "Q" => \A i \in Pend(S) : Due(S, i) =>
              \E o \in Outs, n \in {0 - 1, 0, 1, 2}, got \in {0, 1, 2}, k \in PackNos : ResOk(S, i, o, n, got, k)
\* nobody reads in vain
Wakes == ph = "idle" /\ hist # <<>> /\ hist[Len(hist)].c = "Q" =>
           \A i \in Pend(S) : LET p == S.ops[i] IN p.c \in {"R", "K", "V"} /\ p.w = "r" /\ ~S.lossy[p.e] => ~Data(S, p.e) /\ ~p.x
=============================================================================
