------------------------------- MODULE CoroMC -------------------------------
(* Exhaustive exploration of Coro for small programs (a family of scripts for every coroutine) and every sequence of
   up to MaxCmds commands of the main program, every execution order of the context and every order of destruction at
   the end.  G is a history that only the properties look at.  Every command is printed with the ones before it. *)
EXTENDS Coro, Json
CONSTANTS Programs, Cmds, MaxCmds, Emit
VARIABLES S, G, hist
vars == <<S, G, hist>>
view == <<S, G, Len(hist)>>

I(o, a, b) == [op |-> o, up |-> FALSE, a |-> a, b |-> b, n |-> 1, r |-> "a", mode |-> "w"]
U(i) == [i EXCEPT !.up = TRUE]
Mode(i, m) == [i EXCEPT !.mode = m]
Passive(i) == [i EXCEPT !.r = "p"]
W(c) == I("w", c, 0)
WP(c, x) == I("w", c, x)
O(k) == I("o", k, 0)
R(v) == I("r", v, 0)
Y(v) == I("y", v, 0)
M(c) == I("m", c, 0)
L(c) == I("l", c, 0)
X(progs, cs) == {[c \in DOMAIN p |-> [p[c] EXCEPT !.x = c \in cs]] : p \in progs}     \* coroutines with another executor
Pr(kinds, bodies) == [c \in DOMAIN kinds |-> [kind |-> kinds[c], body |-> bodies[c], x |-> FALSE]]
Two(k1s, b1s, k2s, b2s) == {Pr(<<k1, k2>>, <<b1, b2>>) : k1 \in k1s, b1 \in b1s, k2 \in k2s, b2 \in b2s}
NOps(p) == LET ks == UNION {{p[c].body[i].a : i \in {j \in DOMAIN p[c].body : p[c].body[j].op = "o"}} : c \in DOMAIN p}
           IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : j <= k

\* ------------------------------------------------------------------------------------------ promises and cancellation
PBody == { <<R(3)>>, <<I("t", 4, 0)>>, <<O(1), R(3)>>, <<U(O(1)), R(3)>>, <<Passive(O(1)), U(O(2)), R(3)>>,
           <<I("c", 0, 0), O(1), I("z", 0, 0), O(2), R(3)>>, <<I("s", 4, 0), U(O(1)), U(O(2)), R(3)>>,
           <<O(1), [I("s", 0, 0) EXCEPT !.n = 0], I("h", 0, 0), R(3)>> }
PAw == { <<L(2), W(2), R(5)>>, <<M(2), U(W(2)), R(5)>>, <<M(2), I("e", 2, 0), Mode(W(2), "u"), I("x", 2, 0), R(5)>>,
         <<L(2), U(Mode(W(2), "v")), O(2)>>, <<I("s", 5, 4), M(2), W(2), I("n", 2, 4), R(5)>> }
PProgs == Two({"p"}, PAw, {"p", "P"}, PBody)
PCmds == {M(1), I("C", 1, 9), I("E", 2, 8), I("P", 0, 0), I("Q", 0, 0), I("n", 1, 7), I("n", 1, 4), I("x", 1, 0), I("x", 2, 0),
          I("e", 2, 0), I("I", 1, 0), I("k", 2, 20), I("j", 2, 0)}
\* ------------------------------------------------------------------------------------------ tasks and spawn
TBody == { <<R(3)>>, <<U(O(1)), R(3)>>, <<I("t", 4, 0)>>, <<I("c", 0, 0), O(1), I("z", 0, 0), U(O(2)), R(3)>> }
TAw == { <<L(2), W(2), R(5)>>, <<M(2), I("S", 2, 0), U(O(2)), R(5)>>, <<L(2), U(O(2)), U(W(2)), R(5)>>, <<M(2), W(2), W(2), R(5)>>, <<U(W(2))>> }
TProgs == Two({"p", "t"}, TAw, {"t", "T"}, TBody)
TCmds == {M(1), M(2), I("S", 1, 0), I("S", 2, 0), I("C", 1, 9), I("C", 2, 9), I("N", 1, 7), I("N", 2, 7), I("P", 0, 0), I("Q", 0, 0), I("X", 0, 0),
          I("x", 1, 0), I("x", 2, 0), I("n", 1, 7)}
\* ------------------------------------------------------------------------------------------ generators
GBody == { <<Y(1), Y(2), R(3)>>, <<I("i", 0, 0), Y(1), R(2)>>, <<Y(1), O(1), Y(2), U(O(2)), R(3)>>, <<I("i", 0, 0), Y(1), I("t", 4, 0)>>,
           <<I("i", 0, 0), O(1), Y(1), Y(2), R(3)>>, <<U(O(1)), Y(1), R(2)>> }
GAw == { <<M(2), WP(2, 11), WP(2, 12), WP(2, 13), WP(2, 14)>>, <<L(2), WP(2, 11), U(WP(2, 12)), R(5)>>,
         <<M(2), Mode(WP(2, 11), "v"), O(2), Mode(WP(2, 12), "u"), WP(2, 13), R(5)>> }
GProgs == Two({"p"}, GAw, {"g", "G"}, GBody)
GCmds == {M(1), I("C", 1, 9), I("C", 2, 9), I("P", 0, 0), I("Q", 0, 0), I("n", 2, 7), I("n", 1, 7), I("x", 1, 0), I("x", 2, 0), I("I", 1, 0), I("j", 2, 0),
          I("k", 2, 20)}
\* a third coroutine in between: cancellation and destruction pass through
CAw == { <<L(2), W(2), R(5)>>, <<M(2), U(W(2)), R(5)>> }
CMid == { <<L(3), W(3), R(6)>>, <<M(3), U(W(3)), R(6)>>, <<I("s", 4, 7), L(3), U(W(3)), R(6)>>, <<I("c", 0, 0), M(3), W(3), I("z", 0, 0), U(O(2)), R(6)>> }
CBody == { <<U(O(1)), R(3)>>, <<O(1), Y(3), O(2), R(4)>>, <<Passive(O(1)), I("h", 0, 0), U(O(2)), R(3)>> }
CProgs == {Pr(<<k1, k2, k3>>, <<b1, b2, b3>>) : k1 \in {"p"}, k2 \in {"p", "t"}, k3 \in {"P", "t", "g"}, b1 \in CAw, b2 \in CMid, b3 \in CBody}
CCmds == {M(1), I("C", 1, 9), I("C", 2, 9), I("P", 0, 0), I("Q", 0, 0), I("n", 1, 7), I("n", 1, 4), I("n", 2, 7), I("x", 1, 0), I("I", 1, 0)}
\* with: a body and a teardown, each a coroutine or an operation, or at once
A(w) == I("A", w, 0)
Fl(f) == IF f = "-" THEN <<>> ELSE <<I(f, IF f = "m" THEN 9 ELSE 0, 0)>>
WParts == { <<I("c", 3, 0), I("c", 4, 0)>>, <<I("o", 1, 0), Passive(I("o", 2, 0))>>, <<I("S", 0, 0), I("o", 1, 0)>>, <<I("Z", 7, 0), I("c", 3, 0)>>,
            <<I("s", 5, 0), I("e", 8, 0)>>, <<I("c", 3, 0), I("o", 2, 0)>> }
WAw == { <<A(2), R(5)>>, <<U(A(2)), R(5)>>, <<U(O(3)), U(A(2)), R(5)>> }
WBody == { <<U(O(1)), R(3)>>, <<I("t", 4, 0)>>, <<O(1), I("h", 0, 0), R(3)>> }
WProgs == {Pr(<<"p", "w", k3, "T">>, <<b1, ps \o Fl(f), b3, b4>>) : k3 \in {"P", "t"}, b1 \in WAw, ps \in WParts, f \in {"-", "n", "m"}, b3 \in WBody,
             b4 \in {<<U(O(2)), R(4)>>, <<I("t", 6, 0)>>}}
WCmds == {M(1), I("C", 1, 9), I("E", 1, 8), I("C", 2, 9), I("E", 2, 8), I("C", 3, 9), I("P", 0, 0), I("Q", 0, 0), I("n", 1, 7), I("x", 1, 0)}
\* wait_group: two members pushed by the coroutine that waits, or by the main program meanwhile; also owned by a with
Ps(c) == <<L(c), I("p", c, 1)>>
B(m) == I("B", 1, m)
QAw == { <<I("G", 1, 7)>> \o Ps(2) \o Ps(3) \o <<B(1), B(1), R(5)>>, <<I("G", 1, 77)>> \o Ps(2) \o <<U(B(1))>> \o Ps(3) \o <<B(2), R(5)>>,
         <<I("G", 1, 40)>> \o Ps(2) \o <<U(B(2)), B(3), R(5)>>, <<I("G", 1, 70)>> \o Ps(2) \o Ps(3) \o <<I("Y", 1, 0), U(B(3)), R(5)>> }
QBody == { <<U(O(1)), R(3)>>, <<I("t", 4, 0)>>, <<Passive(O(1)), R(3)>>, <<R(3)>> }
QBody2 == { <<U(O(2)), R(3)>>, <<O(2), U(Passive(O(3))), R(3)>>, <<I("t", 6, 0)>> }
QProgs == {Pr(<<"p", "P", "P">>, <<a, b, c>>) : a \in QAw, b \in QBody, c \in QBody2}
          \cup {Pr(<<"p", "w", "p", "P", "P">>, <<<<A(2), R(5)>>, <<I("c", 3, 0), I("g", 1, t)>>, Ps(4) \o Ps(5) \o x, b, c>>)
                : t \in {0, 7, 47}, x \in {<<B(1), R(2)>>, <<I("t", 9, 0)>>}, b \in QBody, c \in QBody2}
QCmds == {M(1), M(3), I("p", 3, 1), I("C", 1, 9), I("E", 1, 8), I("C", 2, 9), I("K", 1, 7), I("Y", 1, 0), I("F", 1, 0), I("Q", 0, 0), I("P", 0, 0), I("n", 1, 7), I("x", 1, 0)}

\* executors: coroutines that have the other one, others created or awaited there
XBody == { <<I("b", 0, 0), O(1), I("b", 0, 0), R(3)>>, <<I("y", 6, 0), U(O(1)), I("y", 7, 0), R(3)>>, <<I("i", 0, 0), O(1), I("t", 4, 0)>> }
XMid == { <<L(3), I("b", 0, 0), U(O(2)), W(3), W(3), R(6)>>, <<M(3), W(3), O(2), I("b", 0, 0), R(6)>> }
XAw == { <<L(2), W(2), R(5)>>, <<O(3), M(2), U(W(2)), I("b", 0, 0), R(5)>>, <<M(2), I("S", 2, 0), O(3), R(5)>> }
XProgs0 == {Pr(<<"p", k2, k3>>, <<b1, b2, b3>>) : k2 \in {"p", "t"}, k3 \in {"t", "G"}, b1 \in XAw, b2 \in XMid, b3 \in XBody}
XProgs == UNION {X(XProgs0, cs) : cs \in {{1}, {2, 3}}}
XCmds == {M(1), M(2), I("C", 1, 9), I("C", 2, 9), I("C", 3, 9), I("P", 0, 0), I("Q", 0, 0), I("X", 0, 0), I("n", 1, 7), I("N", 2, 7), I("x", 1, 0)}
\* --------------------------------------------------------------------------------------------------- history
InitG(p) == [ yv |-> [c \in DOMAIN p |-> <<>>],       \* what the generator yielded and returned
              dv |-> [c \in DOMAIN p |-> <<>>],       \* what awaits of and get on the generator delivered
              pv |-> [c \in DOMAIN p |-> <<>>],       \* the values pushed by awaits that were begun, in order
              gv |-> [c \in DOMAIN p |-> <<>>],       \* what yields received
              fin |-> [c \in DOMAIN p |-> NoOut],     \* how the body ended
              got |-> [c \in DOMAIN p |-> <<>>],      \* outcomes delivered for promises and tasks
              n |-> [c \in DOMAIN p |-> 0],           \* the number of instructions begun
              sp |-> [c \in DOMAIN p |-> 0],          \* spawn handlers called
              spn |-> {},                             \* spawned
              awt |-> {},                             \* tasks that something began to await
              gp |-> {}, ws |-> {},                   \* the group: pushed; what is being waited for
              wh |-> [c \in DOMAIN p |-> <<>>],      \* with: body, teardown, resource destroyed; the awaiter told
              cmd |-> [op |-> "-", a |-> 0],          \* the command being executed
              bad |-> {} ]
InsOf(s, c, pc) == IF pc <= Len(s.prog[c].body) THEN s.prog[c].body[pc] ELSE R(0)
Own == {"aborted", "already", "detached"}
Settled0(s) == \A c \in DOMAIN s.co : s.co[c].st \in {"none", "resv", "freed"}
\* s: the state after the step that produced the event
Note(g, s, e) ==
  IF e.e = "i" /\ e.c # 0
  THEN LET i == InsOf(s, e.c, e.pc)
           g1 == [g EXCEPT !.n[e.c] = @ + 1]
       IN CASE i.op = "r" -> [g1 EXCEPT !.fin[e.c] = Ok(i.a), !.yv[e.c] = IF IsGen(s.prog[e.c].kind) THEN Append(@, i.a) ELSE @]
            [] i.op = "t" -> [g1 EXCEPT !.fin[e.c] = [k |-> "x", v |-> i.a]]
            [] i.op = "y" -> [g1 EXCEPT !.yv[e.c] = Append(@, i.a)]
            [] i.op = "w" /\ s.prog[i.a].kind = "G" -> [g1 EXCEPT !.pv[i.a] = Append(@, i.b)]
            [] i.op = "w" /\ IsTask(s.prog[i.a].kind) -> [g1 EXCEPT !.awt = @ \cup {i.a}]
            [] i.op = "p" -> [g1 EXCEPT !.gp = @ \cup {i.a}]
            [] i.op = "B" -> [g1 EXCEPT !.ws = {s.wg[1].m[j].c : j \in DOMAIN s.wg[1].m}]
            [] i.op = "S" -> [g1 EXCEPT !.spn = @ \cup {i.a}]
            [] OTHER -> g1
  ELSE IF e.e = "i" /\ g.cmd.op = "p" THEN [g EXCEPT !.gp = @ \cup {g.cmd.a}]
  ELSE IF e.e = "i" /\ g.cmd.op = "S" THEN [g EXCEPT !.spn = @ \cup {g.cmd.a}]
  ELSE IF e.e \in {"wb", "wt", "rd"} THEN [g EXCEPT !.awt = @ \cup {s.prog[e.c].body[j].a : j \in {j \in 1..2 : s.prog[e.c].body[j].op = "c"}}, !.wh[e.c] = Append(@, e.e), !.fin[e.c] = IF e.e = "wt" THEN [k |-> e.k, v |-> e.v] ELSE @]
  ELSE IF e.e = "o" /\ e.c # 0
  THEN LET i == InsOf(s, e.c, e.pc)
       IN IF i.op = "B"
          THEN LET in == {s.wg[1].m[j].c : j \in DOMAIN s.wg[1].m}
                   out == g.ws \ in
                   ok == /\ \A c \in out : s.co[c].done
                         /\ IF i.b = 1 THEN Cardinality(out) <= 1 /\ (e.k = "ok" /\ g.ws # {} => out # {})
                                         /\ (e.k # "ok" /\ out # {} => \A c \in out : s.co[c].outc.k = e.k)
                            ELSE e.k = "ok" => out = g.ws
               IN IF ok THEN g ELSE [g EXCEPT !.bad = @ \cup {"group"}]
          ELSE IF i.op = "A" THEN [g EXCEPT !.wh[i.a] = Append(@, "o"), !.got[i.a] = Append(@, [k |-> e.k, v |-> e.v])]
          ELSE IF i.op = "w"
          THEN LET r == i.a
               IN IF e.k \in Own THEN g
                  ELSE IF IsGen(s.prog[r].kind) THEN [g EXCEPT !.dv[r] = IF e.k = "ok" THEN Append(@, e.v) ELSE @]
                  ELSE [g EXCEPT !.got[r] = Append(@, [k |-> e.k, v |-> e.v])]
          ELSE IF i.op \in {"y", "i"} THEN [g EXCEPT !.gv[e.c] = Append(@, e.v)]
          ELSE g
  ELSE IF e.e = "o" /\ g.cmd.op = "j" /\ e.k = "ok" /\ IsGen(s.prog[2].kind) THEN [g EXCEPT !.dv[2] = Append(@, e.v)]
  ELSE IF e.e = "o" /\ g.cmd.op = "j" /\ ~IsGen(s.prog[2].kind) THEN [g EXCEPT !.got[2] = Append(@, [k |-> e.k, v |-> e.v])]
  ELSE IF e.e = "sp" THEN [g EXCEPT !.sp[e.v] = @ + 1]
  ELSE IF e.e = "crash" THEN [g EXCEPT !.bad = @ \cup {"crash"}]
  ELSE IF e.e = "end" /\ ~Settled0(s) THEN [g EXCEPT !.bad = @ \cup {"frames"}]
  ELSE g

RECURSIVE Fold(_, _, _)
Fold(g, s, es) == IF es = <<>> THEN g ELSE Fold(Note(g, s, Head(es)), s, Tail(es))
RECURSIVE Run(_, _)      \* runs until something has to be decided
Run(s, g) == IF s.out # <<>> THEN Run([s EXCEPT !.out = <<>>, !.fd = {}], Fold(g, s, s.out))
             ELSE IF s.stk = <<>> \/ Polling(s) THEN [s |-> s, g |-> g]
             ELSE Run(Step(s), g)

Init == /\ \E p \in Programs, hx \in BOOLEAN :
             /\ (hx => \E c \in DOMAIN p : IsTask(p[c].kind))
             /\ S = InitS(p, NOps(p), hx, {}) /\ G = InitG(p)
        /\ hist = <<>>
Still == S.stk = <<>>
To(x) == S' = x.s /\ G' = [x.g EXCEPT !.cmd = [op |-> "-", a |-> 0]]
Cmd == /\ Still /\ S.phase = "run" /\ Len(hist) < MaxCmds
       /\ \E i \in Cmds : CmdAllowed(S, i) /\ hist' = Append(hist, i) /\ To(Run([Command(S, Len(hist) + 1, i) EXCEPT !.n = 0], [G EXCEPT !.cmd = [op |-> i.op, a |-> i.a]]))
End == /\ Still /\ S.phase = "run" /\ hist # <<>> /\ UNCHANGED hist
       /\ \E b \in BOOLEAN : To(Run(Ending(S, b), G))
Pick == /\ Polling(S) /\ UNCHANGED hist
        /\ \E s \in PollSucc(S) : To(Run(s, G))
Next == Cmd \/ End \/ Pick
Spec == Init /\ [][Next]_vars

EmitGen == IF Emit /\ Len(hist') > Len(hist)
           THEN PrintT("GEN " \o ToJson([prog |-> S.prog, hx |-> S.hx, h |-> hist']))
           ELSE TRUE

\* ------------------------------------------------------------------------------------------------ properties
Co == DOMAIN S.co
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
RECURSIVE SubSeqOf(_, _)
SubSeqOf(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                  ELSE IF Head(a) = Head(b) THEN SubSeqOf(Tail(a), Tail(b)) ELSE SubSeqOf(a, Tail(b))
Clean == G.bad = {}
\* C09 C12 the outcome of a body is delivered once and is what the body ended with
Faithful == \A c \in Co : ~IsWith(S, c) =>
                          /\ Len(G.got[c]) <= 1
                          /\ G.got[c] # <<>> /\ G.fin[c] # NoOut /\ ~(\E i \in DOMAIN S.prog[c].body : S.prog[c].body[i].up)
                             => G.got[c][1].k = G.fin[c].k /\ (~IsVoid(S.prog[c].kind) => G.got[c][1].v = G.fin[c].v)
\* C09 a coroutine that waits for something will be told: nothing it waits for is done, and it is registered there
Told == Still => \A c \in Co : S.co[c].st = "aw" /\ ~IsWith(S, S.co[c].on) =>
          LET r == S.co[c].on IN /\ S.co[r].aw = c
                                 /\ IF IsGen(S.prog[r].kind) THEN S.co[r].res = <<>> /\ S.co[r].exc = NoOut /\ ~S.co[r].done
                                    ELSE ~S.co[r].done
\* C09 C12 nothing is lost: when everything is quiet, everybody waits for something
Somewhere == Still => \A c \in Co : S.co[c].st \in {"none", "resv", "fresh", "aw", "fan", "op", "yield", "freed", "post", "started"}
Posted == Still => \A c \in Co : /\ S.co[c].st \in {"post", "started"} => LET q == IF S.co[c].ex = 1 THEN S.qh ELSE S.q IN \E i \in DOMAIN q : q[i].c = c /\ q[i].t # "hnd"
                                 /\ S.co[c].st = "op" => S.op[S.co[c].on].st \in {"pend", "posted"} /\ S.op[S.co[c].on].who = c
\* C23 what a coroutine waits for is announced to its executor, and nothing else is posted there
OnIts == Still => /\ \A i \in DOMAIN S.q : LET e == S.q[i] IN IF e.t = "op" THEN S.co[S.op[e.c].who].ex = 0
                                                          ELSE IF e.t = "hnd" THEN ~S.hx ELSE S.co[e.c].ex = 0
                  /\ \A i \in DOMAIN S.qh : LET e == S.qh[i] IN IF e.t = "op" THEN S.co[S.op[e.c].who].ex = 1
                                                           ELSE IF e.t = "hnd" THEN S.hx ELSE e.t = "gen" /\ S.co[e.c].ex = 1
\* C23 C12 a task has the executor of the coroutine that awaits it, a spawned one that of the context
Inherit == \A c \in Co : /\ S.prog[c].x /\ ~IsTask(S.prog[c].kind) /\ S.co[c].begun => S.co[c].ex = 1
                         /\ IsTask(S.prog[c].kind) /\ S.co[c].begun /\ S.co[c].aw \in Co => S.co[c].ex = S.co[S.co[c].aw].ex
                         /\ c \in G.spn => S.co[c].ex = 0
\* C12 a task does nothing before it is awaited or spawned
Lazy == \A c \in Co : IsTask(S.prog[c].kind) => /\ S.co[c].st = "fresh" => G.n[c] = 0 /\ c \notin G.spn
                                                /\ G.n[c] > 0 => c \in G.awt \cup G.spn
\* C13 the handler of a spawned task is called once, or destroyed with its context
SpawnOnce == \A c \in Co : /\ G.sp[c] <= 1 /\ (G.sp[c] = 1 => c \in G.spn)
                           /\ S.phase = "end" /\ Still /\ c \in G.spn => (G.sp[c] = 1) # (c \in S.spd)
\* C14 values are delivered in order, none lost, none twice
Order == \A c \in Co : IsGen(S.prog[c].kind) => Prefix(G.dv[c], G.yv[c]) /\ (S.co[c].st # "freed" => Len(G.yv[c]) <= Len(G.dv[c]) + 2)
\* C15 pushed values arrive in order and at most once
Pushes == \A c \in Co : S.prog[c].kind = "G" => SubSeqOf(G.gv[c], G.pv[c])
\* C15 without interruptions every pushed value arrives, as long as the generator asks for them
AllPushed == \A c \in Co : S.prog[c].kind = "G" /\ ~(\E i \in DOMAIN hist : hist[i].op \in {"I", "j"}) => Prefix(G.gv[c], G.pv[c])
\* C17 a body is followed by one teardown, that by the destruction of the resource and that by the resumption of the awaiter;
\* whoever is destroyed half-way still destroys the resource
Withs == \A c \in Co : IsWith(S, c) =>
           /\ \E w \in {<<"wb", "wt", "rd", "o">>, <<"wb", "rd">>, <<"wb", "wt", "rd">>, <<"rd", "o">>} : Prefix(G.wh[c], w)
           /\ S.phase = "end" /\ Still /\ S.co[c].st # "none" => \E i \in DOMAIN G.wh[c] : G.wh[c][i] = "rd"
\* C17 the failure of the body is seen, as the teardown left it
WithTold == \A c \in Co : IsWith(S, c) /\ Len(G.wh[c]) = 4 =>
              LET o == G.got[c][1]
                  b == G.fin[c]
              IN /\ b.k = "ok" \/ (WithFlag(S, c, "n") /\ WithVoid(S, c)) \/ o = (IF WithFlag(S, c, "m") THEN [k |-> "x", v |-> WithArg(S, c, "m")] ELSE b)
                 /\ o.k = "ok" /\ ~WithVoid(S, c) => b.k = "ok" /\ o.v = IF S.prog[c].body[1].op = "s" THEN S.prog[c].body[1].a
                                                                       ELSE IF S.prog[c].body[1].op = "c" THEN G.fin[S.prog[c].body[1].a].v ELSE o.v
\* C18 what was pushed is in the group until it is done and waited for or reaped; a wait is for what is not done yet
Grouped == Still => /\ S.wg[1].ex => \A c \in G.gp : (\E j \in DOMAIN S.wg[1].m : S.wg[1].m[j].c = c) \/ S.co[c].done
                    /\ \A j \in DOMAIN S.wg[1].m : S.wg[1].m[j].c \in G.gp /\ (S.co[S.wg[1].m[j].c].taken => S.co[S.wg[1].w].fan.k = "all")
                    /\ \A c \in Co : S.co[c].st = "fan" =>
                         LET F == S.co[c].fan IN /\ F.left # {} /\ F.em = 0 /\ S.wg[F.g].w = c
                                                 /\ \A r \in F.left : ~S.co[r].done /\ S.co[r].aw = 200 + c
                                                 /\ F.k = "one" => F.left = {F.m[j] : j \in DOMAIN F.m}
\* C16 C10 at the end nothing is left
Gone == S.phase = "end" /\ Still => \A c \in Co : S.co[c].st \in {"none", "resv", "freed"} \cup (IF c \in S.lk THEN {"leaked"} ELSE {})
\* C10 the operation of a coroutine whose attached promise was destroyed has been told
\* C16 a generator without its object does not run on beyond the next yield
Orphans == Still => \A c \in Co : IsGen(S.prog[c].kind) /\ ~S.co[c].rec => S.co[c].st # "yield"
=============================================================================
