------------------------------ MODULE TimerMC -------------------------------
(* Every history of up to MaxCmds commands on two timers and sleeps, or on two sets of signals.                   *)
EXTENDS Timer, TLC, Json
CONSTANTS Kinds, MaxCmds, MaxOps, Emit
VARIABLES kind, hist, ph, nops, last, cnt
vars == <<S, kind, hist, ph, nops, last, cnt>>
view == <<S, kind, Len(hist), ph, nops, last, cnt>>

NoRes == [o |-> "", i |-> 0, early |-> FALSE, told |-> FALSE, ph |-> ""]
\* cnt: of every set and signal, how often it came while registered, and how often somebody was told
Zero == [came |-> 0, told |-> 0, many |-> 0, cut |-> 0]
Init == /\ \E k \in Kinds : kind = k /\ S = IF k = "t" THEN InitT ELSE InitG
        /\ hist = <<>> /\ ph = "idle" /\ nops = 0 /\ last = NoRes /\ cnt = [g \in {1, 2} |-> [n \in Sigs |-> Zero]]
Cmd(s, h, p) == S' = s /\ hist' = Append(hist, h) /\ ph' = p /\ last' = NoRes /\ UNCHANGED <<kind>>
Ts == {1, 2}
C(c, t) == [c |-> c, t |-> t]
Stays == UNCHANGED <<nops, cnt>>
Starts == nops < MaxOps /\ nops' = nops + 1 /\ UNCHANGED cnt
I == nops + 1
Times == {<<"d", 0>>, <<"a", 5>>, <<"i", 0>>, <<"i", 2>>, <<"i", Forever>>}
TimeCmd ==
  \/ \E t \in Ts, k \in {"y", "s"}, w \in Times : t \notin DOMAIN S.t /\ (t = 2 => 1 \in DOMAIN S.t) /\ Stays
        /\ Cmd(New(S, t, k, w[1], w[2]), [c |-> "T", t |-> t, k |-> k, how |-> w[1], v |-> w[2]], "idle")
  \/ \E t \in DOMAIN S.t :
       \/ Starts /\ Cmd(Wait(S, I, t), [c |-> "w", t |-> t, i |-> I], "run")
       \/ Stays /\ \E w \in {<<"a", 11>>, <<"i", 2>>} : Cmd(Reset(S, t, w[1], w[2]), [c |-> "r", t |-> t, how |-> w[1], v |-> w[2]], "idle")
       \/ Stays /\ Of(S, t) # {} /\ Cmd(Cancel(S, t), C("c", t), "idle")
       \/ Stays /\ Of(S, t) # {} /\ Cmd(Gone(S, t), C("D", t), "idle")
       \/ Stays /\ Of(S, t) # {} /\ 3 - t \notin DOMAIN S.t /\ Cmd(Move(S, t, 3 - t), C("m", t), "idle")
       \/ Stays /\ 3 - t \in DOMAIN S.t /\ S.t[3 - t].k = S.t[t].k /\ Cmd(Assign(S, t, 3 - t), C("M", t), "idle")
  \/ \E k \in {"y", "s"}, w \in {<<"a", 11>>, <<"i", 0>>, <<"i", 1>>, <<"i", Forever>>} : ~(k = "s" /\ w[1] = "i") /\ Starts
        /\ Cmd(Sleep(S, I, k, w[1], w[2]), [c |-> "S", k |-> k, how |-> w[1], v |-> w[2], i |-> I], "run")
  \/ Stays /\ \E n \in {1, 3} : Cmd(Pass(S, n), [c |-> "+", v |-> n], "idle")
  \/ Stays /\ Cmd(Jump(S, 9), [c |-> "=", v |-> 9], "idle")
  \/ Stays /\ \E i \in Pend(S) : S.ops[i].o \in {"", "may"} /\ Cmd(Stop(S, {i}), [c |-> "X", i |-> i], "run")
  \/ Stays /\ Pend(S) # {} /\ Cmd(S, [c |-> "Q"], "Q")
TimeRes == \E i \in Pend(S) :
  /\ (ph = "run" => AtOnce(S, i)) /\ Told(S, i) # ""
  /\ S' = Done(S, i)
  /\ last' = [o |-> Told(S, i), i |-> i, early |-> S.ops[i].o # "aborted" /\ S.ops[i].exp > S.now[S.ops[i].k], told |-> S.ops[i].o = "aborted", ph |-> ph]
  /\ UNCHANGED <<hist, kind, nops, cnt, ph>>
Back == ph # "idle" /\ ph' = "idle" /\ last' = NoRes /\ UNCHANGED <<hist, kind, nops, cnt>>
        /\ S' = (IF kind = "t" THEN Suspend(S) ELSE S)
        /\ IF kind = "t" THEN \A i \in Pend(S) : IF ph = "Q" THEN Told(S, i) = "" ELSE S.ops[i].o # "now"
           ELSE ph = "Q" => \A i \in Pend(S) : S.ops[i].o = ""
\* how many are told by one signal
Add1(c, f, n) == IF f = "came" THEN [c EXCEPT !.came = @ + n] ELSE IF f = "told" THEN [c EXCEPT !.told = @ + n] ELSE [c EXCEPT !.cut = @ + n]
SigCmd ==
  \/ \E g \in Ts, ns \in {{}, {1}, {1, 2}} : g \notin DOMAIN S.reg /\ (g = 2 => 1 \in DOMAIN S.reg) /\ Stays
        /\ Cmd(NewSet(S, g, ns), [c |-> "G", t |-> g, ns |-> ns], "idle")
  \/ \E g \in DOMAIN S.reg :
       \/ Starts /\ \E n \in Choices(S, g) : Cmd(WaitSig(S, I, g, n), [c |-> "w", t |-> g, i |-> I], "run")
       \/ UNCHANGED nops /\ \E n \in {1, 2} : n \in S.reg[g] /\ Cmd(Remove(S, g, n), [c |-> "r", t |-> g, n |-> n], "idle")
            /\ cnt' = [cnt EXCEPT ![g][n].cut = @ + S.und[g][n]]
       \/ Stays /\ \E n \in {1, 2} : n \notin S.reg[g] /\ Cmd(Add(S, g, n), [c |-> "a", t |-> g, n |-> n], "idle")
       \/ UNCHANGED nops /\ S.reg[g] # {} /\ Cmd(Clear(S, g), C("C", g), "idle") /\ cnt' = [cnt EXCEPT ![g] = [n \in Sigs |-> [@[n] EXCEPT !.cut = @ + S.und[g][n]]]]
       \/ Stays /\ Of(S, g) # {} /\ Cmd(Stop(S, Of(S, g)), C("c", g), "idle")
       \/ UNCHANGED nops /\ Of(S, g) # {} /\ Cmd(GoneSet(S, g), C("D", g), "idle") /\ cnt' = [cnt EXCEPT ![g] = [n \in Sigs |-> Zero]]
  \/ Stays /\ \E n \in {1, 2} : Cmd(Raise(S, n), [c |-> "!", n |-> n], "idle")
  \/ Stays /\ \E i \in Pend(S) : S.ops[i].o = "" /\ Cmd(Stop(S, {i}), [c |-> "X", i |-> i], "run")
  \/ UNCHANGED nops /\ Cmd(Deliver(S), [c |-> "Q"], "Q")
     /\ cnt' = [g \in Ts |-> [n \in Sigs |->
          IF g \in DOMAIN S.reg /\ n \in S.reg[g]
          THEN LET came == Cardinality({j \in DOMAIN S.raised : S.raised[j] = n})
                   f == CHOOSE j \in 1..(Len(S.raised) + 1) : (j = Len(S.raised) + 1 \/ S.raised[j] \in S.reg[g]) /\ \A k \in 1..(j - 1) : S.raised[k] \notin S.reg[g]
                   \* the first that concerns the set is told to all that wait
                   m == IF f <= Len(S.raised) /\ S.raised[f] = n THEN Cardinality(Waiting(S, g)) ELSE 0
               IN [cnt[g][n] EXCEPT !.came = @ + came, !.many = @ + (IF m > 1 THEN m - 1 ELSE 0)]
          ELSE cnt[g][n]]]
SigRes == \E i \in Pend(S) :
  /\ S.ops[i].o # ""
  /\ S' = Done(S, i)
  /\ last' = [o |-> S.ops[i].o, i |-> i, early |-> FALSE, told |-> S.ops[i].o = "aborted", ph |-> ph]
  /\ cnt' = IF S.ops[i].o = "ok" /\ S.ops[i].of \in DOMAIN S.reg THEN [cnt EXCEPT ![S.ops[i].of][S.ops[i].n].told = @ + 1] ELSE cnt
  /\ UNCHANGED <<hist, kind, nops, ph>>
Next == \/ ph = "idle" /\ Len(hist) < MaxCmds /\ IF kind = "t" THEN TimeCmd ELSE SigCmd
        \/ ph # "idle" /\ (IF kind = "t" THEN TimeRes ELSE SigRes)
        \/ Back
Spec == Init /\ [][Next]_vars
EmitGen == IF Emit /\ Len(hist') > Len(hist) /\ Len(hist') > 1 THEN PrintT("GEN " \o ToJson([kind |-> kind, h |-> hist'])) ELSE TRUE

----------------------------------------------------------------------------
\* nobody is woken before the time
Early == ~last.early
\* and nobody after it: whoever still waits once the loop is idle has a reason to
Late == kind = "t" /\ ph = "idle" /\ hist # <<>> /\ hist[Len(hist)].c = "Q" => \A i \in Pend(S) : S.ops[i].exp > S.now[S.ops[i].k]
\* a wait for what has passed does not wait
AtOnceMC == kind = "t" /\ ph = "idle" => \A i \in Pend(S) : S.ops[i].o # "now"
\* every wait on a timer that exists is for the time it expires, unless it was told to stop
Current == kind = "t" => \A i \in Pend(S) : S.ops[i].of \in DOMAIN S.t /\ S.ops[i].o \in {"", "may"} => S.ops[i].exp = S.t[S.ops[i].of].exp
Owned == kind = "t" => \A i \in Pend(S) : S.ops[i].of # 0 /\ S.ops[i].of \notin DOMAIN S.t => S.ops[i].o \in {"aborted", "now"}
\* what was asked to stop does
Stopped == hist # <<>> /\ ph = "idle" /\ hist[Len(hist)].c \in {"c", "r", "D"} /\ (kind = "t" \/ hist[Len(hist)].c # "r")
             => \A i \in Of(S, hist[Len(hist)].t) : S.ops[i].o \notin {"", "may"}
\* a signal that came is told to somebody or kept
Kept == kind = "g" => \A g \in DOMAIN S.reg : \A n \in Sigs :
          cnt[g][n].came + cnt[g][n].many = cnt[g][n].told + S.und[g][n] + cnt[g][n].cut + Cardinality({i \in Of(S, g) : S.ops[i].o = "ok" /\ S.ops[i].n = n})
\* and nobody waits for what is kept
Awake == kind = "g" => \A g \in DOMAIN S.reg : Ready(S, g) # {} => Waiting(S, g) = {}
Registered == kind = "g" => \A g \in DOMAIN S.reg : Ready(S, g) \subseteq S.reg[g]
=============================================================================
