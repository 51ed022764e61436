------------------------------- MODULE Timer --------------------------------
(* Timers of both clocks, sleeps, and sets of signals.                                                            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE S

None == [i \in {} |-> 0]
With(g, i, v) == [j \in DOMAIN g \cup {i} |-> IF j = i THEN v ELSE g[j]]
Without(g, i) == [j \in DOMAIN g \ {i} |-> g[j]]
Pend(s) == DOMAIN s.ops
Done(s, i) == [s EXCEPT !.ops = Without(@, i)]
\* o: "" it waits, "now" it does not wait, "may" it need not wait, else what it is going to be told
Stop(s, is) == [s EXCEPT !.ops = [i \in DOMAIN @ |-> IF i \in is /\ @[i].o \in {"", "may"} THEN [@[i] EXCEPT !.o = "aborted"] ELSE @[i]]]
Of(s, t) == {i \in Pend(s) : s.ops[i].of = t}

----------------------------------------------------------------------------
\* Time.  Both clocks start at 10; nothing was before 0 and nothing comes after Forever.
Forever == 1000000
Epoch == 0 - 1000
InitT == [now |-> [y |-> 10, s |-> 10], t |-> None, ops |-> None]
Pass(s, n) == [s EXCEPT !.now = [y |-> @.y + n, s |-> @.s + n]]
Jump(s, v) == [s EXCEPT !.now.s = v]
\* how: "d" by default, "a" at v, "i" in v
When(s, k, how, v) == IF how = "d" THEN Epoch ELSE IF v = Forever THEN Forever ELSE IF how = "a" THEN v ELSE s.now[k] + v
New(s, t, k, how, v) == [s EXCEPT !.t = With(@, t, [k |-> k, exp |-> When(s, k, how, v)])]
Reset(s, t, how, v) == [Stop(s, Of(s, t)) EXCEPT !.t[t].exp = When(s, s.t[t].k, how, v)]
Cancel(s, t) == Stop(s, Of(s, t))
Gone(s, t) == [Stop(s, Of(s, t)) EXCEPT !.t = Without(@, t)]
\* what waits for t goes on waiting for u
Carry(s, t, u) == [s EXCEPT !.t = Without(With(@, u, s.t[t]), t),
                            !.ops = [i \in DOMAIN @ |-> IF @[i].of = t THEN [@[i] EXCEPT !.of = u] ELSE @[i]]]
Move(s, t, u) == Carry(s, t, u)
Assign(s, t, u) == Carry(Stop(s, Of(s, u)), t, u)
Expired(s, t) == IF s.t[t].exp < s.now[s.t[t].k] THEN {TRUE} ELSE IF s.t[t].exp = s.now[s.t[t].k] THEN {TRUE, FALSE} ELSE {FALSE}
Await(s, i, of, k, exp) == [s EXCEPT !.ops = With(@, i, [of |-> of, k |-> k, exp |-> exp,
                                o |-> IF exp < s.now[k] THEN "now" ELSE IF exp = s.now[k] THEN "may" ELSE ""])]
Wait(s, i, t) == Await(s, i, t, s.t[t].k, s.t[t].exp)
Sleep(s, i, k, how, v) == Await(s, i, 0, k, When(s, k, how, v))
\* what it may be told: at once, or by the loop
Told(s, i) == LET p == s.ops[i] IN IF p.o \in {"now", "may"} THEN "ok" ELSE IF p.o = "" /\ p.exp <= s.now[p.k] THEN "ok" ELSE p.o
AtOnce(s, i) == s.ops[i].o \notin {""}
\* it did not go on at once
Suspend(s) == [s EXCEPT !.ops = [i \in DOMAIN @ |-> IF @[i].o = "may" THEN [@[i] EXCEPT !.o = ""] ELSE @[i]]]

----------------------------------------------------------------------------
\* Signals 1, 2 and 3; there is no signal 0.
Sigs == 1..3
InitG == [reg |-> None, und |-> None, ops |-> None, raised |-> <<>>]
NewSet(s, g, ns) == [s EXCEPT !.reg = With(@, g, ns), !.und = With(@, g, [n \in Sigs |-> 0])]
Add(s, g, n) == IF n = 0 THEN s ELSE [s EXCEPT !.reg[g] = @ \cup {n}]
Remove(s, g, n) == IF n = 0 THEN s ELSE [s EXCEPT !.reg[g] = @ \ {n}, !.und[g][n] = 0]
Clear(s, g) == [s EXCEPT !.reg[g] = {}, !.und[g] = [n \in Sigs |-> 0]]
GoneSet(s, g) == LET t == Stop(s, Of(s, g)) IN [t EXCEPT !.reg = Without(@, g), !.und = Without(@, g)]
Raise(s, n) == [s EXCEPT !.raised = Append(@, n)]
Waiting(s, g) == {i \in Of(s, g) : s.ops[i].o = ""}
Ready(s, g) == {n \in Sigs : s.und[g][n] > 0}
\* waiting for what has come already takes one of it
WaitSig(s, i, g, n) == LET t == [s EXCEPT !.ops = With(@, i, [of |-> g, o |-> IF n = 0 THEN "" ELSE "ok", n |-> n])] IN
                       IF n = 0 THEN t ELSE [t EXCEPT !.und[g][n] = @ - 1]
Choices(s, g) == IF Ready(s, g) = {} THEN {0} ELSE Ready(s, g)
\* a signal is told to everybody who waits for it, in every set; a set nobody waits for keeps it
Deliver1(s) == LET n == Head(s.raised)
                   G == {g \in DOMAIN s.reg : n \in s.reg[g]} IN
               [s EXCEPT !.raised = Tail(@),
                         !.ops = [i \in DOMAIN @ |-> IF @[i].of \in G /\ @[i].o = "" THEN [@[i] EXCEPT !.o = "ok", !.n = n] ELSE @[i]],
                         !.und = [g \in DOMAIN @ |-> IF g \in G /\ Waiting(s, g) = {} THEN [@[g] EXCEPT ![n] = @ + 1] ELSE @[g]]]
RECURSIVE Deliver(_)
Deliver(s) == IF s.raised = <<>> THEN s ELSE Deliver(Deliver1(s))
=============================================================================
