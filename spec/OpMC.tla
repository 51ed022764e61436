-------------------------------- MODULE OpMC --------------------------------
(* Exhaustive exploration of Op: every operation of up to MaxSteps steps, alone, in a composition and before    *)
(* another one, and every history of up to MaxCmds commands.                                                    *)
EXTENDS Op, Json
CONSTANTS Progs, MaxCmds, Emit
VARIABLES hist, cnt, ended, last
vars == <<S, hist, cnt, ended, last>>
view == <<S, Len(hist), cnt, ended>>

Mid == {"i", "p", "n", "h", "H"}
Fin == {"c", "x", "d"}
Seqs(k) == UNION {[1..j -> Mid] : j \in 0..k}
Steps(k) == {m \o <<f>> : m \in Seqs(k), f \in Fin}
Leaf(st) == [src |-> "o", sig |-> "E", out |-> "o", rdy |-> "-", steps |-> st, kids |-> <<>>, par |-> 0]
Comp(kids) == [src |-> "c", sig |-> "E", out |-> "e", rdy |-> "-", steps |-> <<>>, kids |-> kids, par |-> 0]
Kinds == {"p", "t"}
A(n, f) == [n |-> n, f |-> f]
\* an operation, then another one
Alone(k) == {[kind |-> K, aw |-> <<A(1, "d"), A(2, "t")>>, op |-> <<Leaf(s), Leaf(<<"p", "c">>)>>] : K \in Kinds, s \in Steps(k)}
\* ready, or failing when asked
Ready == {[kind |-> K, aw |-> <<A(1, f)>>, op |-> <<[Leaf(<<"c">>) EXCEPT !.rdy = r, !.sig = g, !.out = o]>>] :
            K \in Kinds, f \in {"d", "r", "t"}, r \in {"r", "t"}, g \in {"v", "i", "I", "e", "E", "F", "x", "X", "Y"}, o \in {"o", "e"}}
\* every signature and form
Sigs == {[kind |-> "p", aw |-> <<A(1, f)>>, op |-> <<[Leaf(s) EXCEPT !.sig = g, !.out = o]>>] :
            f \in {"d", "r", "t"}, g \in {"v", "i", "I", "m", "e", "E", "F", "M", "x", "X", "Y"}, o \in {"o", "e"},
            s \in {<<"i", "c">>, <<"p", "c">>, <<"h", "c">>, <<"c">>, <<"x">>}}
\* in a composition, and that in another one
Nested(k) == {[kind |-> K, aw |-> <<A(1, "r")>>, op |-> <<Comp(<<2>>), [Leaf(s) EXCEPT !.par = 1]>>] : K \in Kinds, s \in Steps(k)}
         \cup {[kind |-> "p", aw |-> <<A(1, "t")>>,
                op |-> <<Comp(<<2>>), [Comp(<<3>>) EXCEPT !.par = 1], [Leaf(s) EXCEPT !.par = 2]>>] : s \in Steps(k - 1)}
Two(k) == {[kind |-> "p", aw |-> <<A(1, "d")>>, op |-> <<Comp(<<2, 3>>), [Leaf(s) EXCEPT !.par = 1], [Leaf(t) EXCEPT !.par = 1]>>] :
             s \in Steps(k - 1), t \in Steps(k - 1)}
\* the user's own awaitables, in every form
Own == {[kind |-> "p", aw |-> <<A(1, f), A(2, "d")>>,
         op |-> <<[Leaf(s) EXCEPT !.src = "g", !.rdy = r, !.sig = g, !.out = o], Leaf(<<"h", "c">>)>>] :
            f \in {"d", "r", "t", "T", "R"}, r \in {"-", "r", "t"}, g \in {"v", "i", "I", "m"}, o \in {"o", "e", "n"},
            s \in {<<"c">>, <<"p", "c">>, <<"h", "c">>, <<"x">>}}
Quick == Own \cup Alone(3) \cup Ready \cup Sigs \cup Nested(2) \cup Two(2)
Deep == Alone(4) \cup Nested(4) \cup Two(3)

Zero == [n \in DOMAIN S.p.op |-> 0]
Init == /\ \E p \in Progs : S = InitS(p)
        /\ hist = <<>> /\ ended = FALSE /\ last = None
        /\ cnt = [init |-> Zero, res |-> Zero, comp |-> Zero, ready |-> Zero]

Count(e) == IF e.e \in DOMAIN cnt THEN [cnt EXCEPT ![e.e][e.n] = @ + 1] ELSE cnt
System == /\ Busy(S)
          /\ LET r == Step(S) IN S' = r.s /\ last' = r.e /\ cnt' = Count(r.e)
          /\ UNCHANGED <<hist, ended>>
Cmd(s, h) == S' = [s EXCEPT !.thr = 0] /\ hist' = Append(hist, h) /\ last' = None /\ UNCHANGED <<cnt, ended>>
Env == /\ ~Busy(S) /\ ~ended
       /\ IF hist = <<>> THEN Cmd(Go(S), [a |-> "go"])
          ELSE \/ /\ Len(hist) <= MaxCmds
                  /\ \/ \E n \in DOMAIN S.st : Held(S, n) /\ (Cmd(Cont(S, n), [a |-> "C", n |-> n]) \/ Cmd(DropHeld(S, n), [a |-> "D", n |-> n]))
                     \/ S.live > 0 /\ Innermost(S, 0) # 0 /\ Cmd(Cancel(S, "all"), [a |-> "X", t |-> "all"])
                     \/ S.q # <<>> /\ Cmd(Poll(S), [a |-> "P"])
               \/ /\ ended' = TRUE /\ UNCHANGED <<hist, cnt, last>>
                  /\ LET H == {n \in DOMAIN S.st : Held(S, n)}
                         hs == IF H = {} THEN <<>> ELSE <<I("xdrop", CHOOSE n \in H : TRUE)>>   \* only one can be held
                     IN S' = Push(Flush(S), hs)
Next == System \/ Env
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
EmitGen == IF Emit /\ Len(hist') > Len(hist) /\ Len(hist') > 1
           THEN PrintT("GEN " \o ToJson([kind |-> S.p.kind, aw |-> S.p.aw, op |-> S.p.op, h |-> Tail(hist')])) ELSE TRUE

----------------------------------------------------------------------------
N == DOMAIN S.p.op
\* an operation is initiated once, unless it is ready, and resumes its coroutine at most once
Once == \A n \in N : /\ cnt.init[n] <= 1 /\ cnt.res[n] <= 1 /\ cnt.ready[n] <= 1 /\ cnt.comp[n] <= 1
                     /\ S.p.op[n].rdy # "-" /\ cnt.ready[n] > 0 => cnt.init[n] = 0
\* never from inside the initiation
Outside == last.e = "res" => /\ ~S.ini[last.n] /\ \A j \in DOMAIN S.stk : S.stk[j] # I("iret", last.n)
\* what it is resumed with is what the operation completed with
Told == last.e = "res" /\ cnt.comp[last.n] = 1 => last.o = S.now[last.n]
\* a coroutine only ever waits for something that is still going to happen
Pending(n) == S.st[n] \in {"h", "H", "j"} \/ \E j \in DOMAIN S.q : S.q[j].n = n /\ S.q[j].k \in {"imm", "post", "abt"}
RECURSIVE Leafs(_)
Leafs(c) == LET n == Awaits(S, c)[S.pos[c]].n IN IF S.p.op[n].src = "c" THEN Leafs(n) ELSE n
Awake == ~Busy(S) /\ ~ended /\ S.co[0] = "wait" => Pending(Leafs(0))
\* nothing is left behind
Clean == ended /\ ~Busy(S) => S.live = 0
\* C20: the forms agree
Prog(g, o, f) == [kind |-> "p", aw |-> <<A(1, f)>>, op |-> <<[Leaf(<<"c">>) EXCEPT !.sig = g, !.out = o]>>]
R(g, o, f, ab) == LET s == InitS(Prog(g, o, f)) IN Res(s, 1, Outcome(s, 1, ab))
ASSUME Agree ==
  \A g \in {"v", "i", "I", "m", "e", "E", "F", "M", "x", "X", "Y"}, o \in {"o", "e"}, ab \in BOOLEAN :
    LET d == R(g, o, "d", ab)  r == R(g, o, "r", ab)  t == R(g, o, "t", ab) IN
    /\ d.o = r.o /\ r.o = t.o
    /\ d.o = "ok" => d.v = r.v /\ r.v = t.v /\ d.k = "v" /\ r.k = "rv"
    /\ d.o # "ok" => d.k = "thrown" /\ r.k = "re"
    /\ t.k = "t"
ASSUME AgreeOwn ==
  \A g \in {"v", "i", "I", "m"}, o \in {"o", "e", "n"} :
    LET P(f) == [Prog(g, o, f) EXCEPT !.op[1].src = "g"]
        W(f) == LET s == InitS(P(f)) IN Res(s, 1, Outcome(s, 1, FALSE))
    IN /\ \A f, h \in {"d", "r", "t", "T", "R"} : W(f).o = W(h).o
       /\ W("d").o = "ok" => \A f \in {"r", "t", "T", "R"} : W(f).v = W("d").v
       /\ W("d").k = "thrown" <=> o = "e"
Ends == <>[](ended /\ ~Busy(S))
=============================================================================
