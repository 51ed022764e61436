------------------------------- MODULE Coro -------------------------------
(* Operational semantics of cobalt's coroutines: promises (p, P), tasks (t, T), generators (g, G) and detached
   coroutines (d), each of which interprets a script, and a main program that creates, awaits (through coroutines),
   cancels, moves, detaches, spawns and destroys them, completes the operations they wait for and runs the two
   execution contexts.

   The state s is a record.  s.stk is a stack of small jobs, the top one is executed next; s.out holds the
   observable events the last job produced.  Everything is deterministic except the main program's commands and
   the order in which a context executes what was posted to it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Moved == 20..22                       \* additional variables, used as targets of moves
NoOut == [k |-> "none", v |-> 0]
Ok(v) == [k |-> "ok", v |-> v]
Err(k) == [k |-> k, v |-> 0]
Bit(a, i) == (a \div i) % 2
And(a, b) == Bit(a, 1) * Bit(b, 1) + 2 * (Bit(a, 2) * Bit(b, 2)) + 4 * (Bit(a, 4) * Bit(b, 4))
SeqOf(f(_), q) == [i \in DOMAIN q |-> f(q[i])]
RECURSIVE Reverse(_)
Reverse(q) == IF q = <<>> THEN <<>> ELSE Append(Reverse(Tail(q)), Head(q))
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)

\* a wait for several coroutines m at once, for "one" or for "all" of them; left: not done yet; em: cancellation is being
\* handed down, the waiting coroutine continues only afterwards
NoFan == [k |-> "-", m |-> <<>>, left |-> {}, win |-> 0, g |-> 0, em |-> 0]
Groups == 1..2
\* a wait_group: the types for normal and exceptional exit, its members, who waits for it, the with that owns it
NoGroup == [ex |-> FALSE, ct |-> 0, xt |-> 7, m |-> <<>>, w |-> 0, own |-> 0, lo |-> 99]
InitCo == [st |-> "none", pc |-> 1, tic |-> TRUE, cs |-> 0, fi |-> 7, fo |-> 7,
           on |-> 0, onv |-> 0, intr |-> FALSE, topush |-> FALSE, x |-> 0,      \* what it waits for
           aw |-> 0, rec |-> FALSE, outc |-> NoOut, done |-> FALSE, taken |-> FALSE,
           lazy |-> FALSE, res |-> <<>>, exc |-> NoOut, push |-> <<>>,
           src |-> FALSE, owned |-> <<>>, begun |-> FALSE,
           fan |-> NoFan, ex |-> 0,                                             \* its executor: 0 the context, 1 the other one
           bo |-> NoOut, wp |-> 0]                                              \* of a with: how the body ended; 1 body 2 teardown
NoVar == [ex |-> FALSE, h |-> 0, own |-> 0, att |-> FALSE, kind |-> "-"]

\* prog: sequence of [kind, body]; nops: operations 1..nops; dev: the known deviations of the library from this
\* specification (listed in known_findings.txt) that may occur; s.kf: those that did occur
InitS(prog, nops, hx, dev) ==
  [ prog |-> prog, hx |-> hx, dev |-> dev, kf |-> {},
    co |-> [c \in DOMAIN prog |-> InitCo],
    wg |-> [g \in Groups |-> NoGroup],
    vr |-> [v \in DOMAIN prog \cup Moved |-> NoVar],
    op |-> [k \in 1..nops |-> [st |-> "no", who |-> 0, r |-> "a"]],
    q |-> <<>>, qh |-> <<>>,                        \* posted to the context / to the handlers' context
    hs |-> [c \in DOMAIN prog |-> "no"],            \* cancellation slot of the handler of spawned task c
    stk |-> <<>>, out |-> <<>>, fd |-> {}, spd |-> {}, lk |-> {}, at |-> "-", closing |-> FALSE, phase |-> "run", n |-> 0 ]

Kind(s, c) == s.prog[c].kind
IsGen(k) == k \in {"g", "G"}
IsTask(k) == k \in {"t", "T"}
IsVoid(k) == k \in {"P", "T"}
IsProm(k) == k \in {"p", "P"}
IsWith(s, c) == s.prog[c].kind = "w"    \* the coroutine behind with(); body[1] is the body, body[2] the teardown, the rest flags
WithFlag(s, c, f) == \E i \in 3..Len(s.prog[c].body) : s.prog[c].body[i].op = f
WithArg(s, c, f) == s.prog[c].body[CHOOSE i \in 3..Len(s.prog[c].body) : s.prog[c].body[i].op = f].a
WithGroup(s, c) == IF s.prog[c].body[2].op = "g" THEN s.prog[c].body[2].a ELSE 0
WithVoid(s, c) == LET b == s.prog[c].body[1] IN b.op \in {"S", "z", "e"} \/ (b.op = "c" /\ IsVoid(s.prog[b.a].kind))
RECURSIVE Slotted(_, _)   \* is there a cancellation slot
Slotted(s, c) == IF IsWith(s, c) THEN Slotted(s, s.co[c].aw) ELSE s.prog[c].kind # "d" \/ s.co[c].src
Instr(s, c) == IF s.co[c].pc > Len(s.prog[c].body)
               THEN [op |-> "r", up |-> FALSE, a |-> 0, b |-> 0, n |-> 1, r |-> "a", mode |-> "w"]
               ELSE s.prog[c].body[s.co[c].pc]

Top(s) == Head(s.stk)
Rep(s, jobs) == [s EXCEPT !.stk = jobs \o Tail(@)]
Out(s, e) == [s EXCEPT !.out = Append(@, e)]
J(name, c) == [j |-> name, c |-> c, o |-> NoOut, n |-> 0]
JO(name, c, o) == [j |-> name, c |-> c, o |-> o, n |-> 0]
JN(name, c, n) == [j |-> name, c |-> c, o |-> NoOut, n |-> n]
Post(s, e) == [s EXCEPT !.q = Append(@, e)]
\* to the executor of coroutine c
PostTo(s, c, e) == IF s.co[c].ex = 0 THEN Post(s, e) ELSE [s EXCEPT !.qh = Append(@, e)]
\* s.at: the context that is being polled; it is what this_thread's executor is
Here(s) == IF s.at = "h" THEN 1 ELSE 0
\* the executor of a coroutine when it is called; the one of a task is known when it is awaited
ExOf(s, c) == IF IsTask(Kind(s, c)) THEN 0 ELSE IF s.prog[c].x THEN 1 ELSE Here(s)
Busy(s, v) == \E c \in DOMAIN s.co : s.co[c].st = "aw" /\ s.co[c].onv = v

EvI(c, pc) == [e |-> "i", c |-> c, pc |-> pc]
EvO(c, pc, o) == [e |-> "o", c |-> c, pc |-> pc, k |-> o.k, v |-> o.v]

(* who = 0: the main program; pos: the script position or the number of the command *)
After(who) == IF who = 0 THEN <<>> ELSE <<J("run", who)>>
Adv(s, who) == IF who = 0 THEN s ELSE [s EXCEPT !.co[who].pc = @ + 1]

\* --------------------------------------------------------------------------------- waiting for a generator
GenOutcome(s, r) == IF s.co[r].exc # NoOut THEN s.co[r].exc
                    ELSE IF s.co[r].res = <<>> THEN Err("void") ELSE Ok(Head(s.co[r].res))
GenResume(s, c) ==      \* c, which waits for a generator, continues
  LET r == s.co[c].on
      R == s.co[r]
      o == GenOutcome(s, r)
      s1 == IF R.exc # NoOut THEN [s EXCEPT !.co[r].exc = NoOut]
            ELSE IF R.res = <<>> THEN s
            ELSE LET s2 == IF s.co[c].topush THEN [s EXCEPT !.co[r].push = <<s.co[c].x>>] ELSE s
                     s3 == [s2 EXCEPT !.co[r].res = Tail(@)]
                 IN IF R.st = "yield" /\ ~R.lazy /\ s3.co[r].push # <<>>
                    THEN PostTo([s3 EXCEPT !.co[r].st = "post"], r, [t |-> "gen", c |-> r, o |-> NoOut]) ELSE s3
  IN IF R.exc = NoOut /\ R.res # <<>> /\ s.co[c].topush /\ R.push # <<>>   \* only after the deviation "push_ahead"
     THEN Rep(Out(s, [e |-> "crash"]), <<J("dead", 0)>>)
     ELSE Rep([s1 EXCEPT !.co[c].st = "run", !.co[c].onv = 0], <<JO("res", c, o)>>)

\* what happens to a coroutine that waited for r (a promise or task) when r is done
CoResume(s, c) ==
  LET r == s.co[c].on
  IN Rep([s EXCEPT !.co[c].st = "run", !.co[c].onv = 0, !.co[r].taken = TRUE], <<JO("res", c, s.co[r].outc)>>)

Suspend(s, c, r, v, ins) ==
  [s EXCEPT !.co[c].st = "aw", !.co[c].on = r, !.co[c].onv = v, !.co[c].intr = (ins.mode = "w"),
            !.co[c].topush = TRUE, !.co[c].x = ins.b, !.co[r].aw = c]

Await(s, c, v, ins) ==
  LET r == s.vr[v].h
      R == s.co[r]
      k == Kind(s, r)
      sw == Suspend(s, c, r, v, ins)
  IN IF IsGen(k)
     THEN IF R.exc # NoOut \/ R.res # <<>> \/ R.done
          THEN GenResume([s EXCEPT !.co[c].on = r, !.co[c].topush = TRUE, !.co[c].x = ins.b], c)
          ELSE IF R.aw # 0 THEN Rep(s, <<JO("res", c, Err("already"))>>)
          ELSE IF R.st = "yield"     \* it is waiting to be resumed: take the pushed value along
               THEN Rep(IF R.push = <<>> THEN [sw EXCEPT !.co[r].push = <<ins.b>>, !.co[c].topush = FALSE] ELSE sw, <<J("yres", r)>>)
               ELSE Rep(sw, IF R.lazy /\ k = "g" /\ R.push = <<>> THEN <<J("ahead", c)>> ELSE <<>>)
     ELSE IF R.done THEN CoResume([s EXCEPT !.co[c].on = r], c)
          ELSE IF R.aw # 0 THEN Rep(s, <<JO("res", c, Err("already"))>>)
          ELSE IF R.st = "fresh" THEN Rep([sw EXCEPT !.co[r].st = "run", !.co[r].ex = s.co[c].ex], <<J("run", r)>>)
          ELSE Rep(sw, <<>>)

\* ------------------------------------------------------------------------------------------------------ with
Unused(s, c, i) == CASE i.op = "c" -> i.a > c /\ i.a \in DOMAIN s.co /\ s.co[i.a].st = "none" /\ (IsProm(Kind(s, i.a)) \/ IsTask(Kind(s, i.a)))
                     [] i.op = "o" -> i.a \in DOMAIN s.op /\ s.op[i.a].st = "no"
                     [] i.op = "g" -> i.a \in Groups /\ ~s.wg[i.a].ex
                     [] OTHER -> TRUE
CanWith(s, c, w) == /\ w > c /\ w \in DOMAIN s.co /\ IsWith(s, w) /\ s.co[w].st = "none" /\ Len(s.prog[w].body) >= 2
                    /\ LET b == s.prog[w].body[1]  t == s.prog[w].body[2]
                       IN Unused(s, w, b) /\ Unused(s, w, t) /\ ~(b.op = t.op /\ b.op \in {"c", "o"} /\ b.a = t.a)
Reserve(s, i) == CASE i.op = "c" -> [s EXCEPT !.co[i.a].st = "resv"] [] i.op = "o" -> [s EXCEPT !.op[i.a].st = "resv"] [] OTHER -> s
\* the with coroutine w runs its body or its teardown (i)
WithRun(s, w, i) ==
  CASE i.op = "c" -> LET s1 == [s EXCEPT !.co[i.a].rec = TRUE, !.co[i.a].st = IF IsTask(Kind(s, i.a)) THEN "fresh" ELSE "run", !.co[i.a].ex = ExOf(s, i.a)]
                     IN Rep(s1, (IF IsTask(Kind(s, i.a)) THEN <<>> ELSE <<J("run", i.a)>>) \o <<JN("waw", w, i.a)>>)
    [] i.op = "o" -> Rep(Out([s EXCEPT !.op[i.a] = [st |-> "pend", who |-> w, r |-> i.r], !.co[w].st = "op", !.co[w].on = i.a],
                             [e |-> "init", k |-> i.a, slot |-> Slotted(s, w)]), <<>>)
    [] i.op \in {"z", "Z", "e"} -> Rep(s, <<JO("res", w, [k |-> "x", v |-> i.a])>>)
    [] i.op = "s" -> Rep(s, <<JO("res", w, Ok(i.a))>>)
    [] i.op = "S" -> Rep(s, <<JO("res", w, Ok(0))>>)
    [] i.op = "g" -> LET G == s.wg[i.a]          \* await_exit of a wait_group
                         t == IF s.co[w].bo.k = "ok" THEN G.ct ELSE G.xt
                     IN Rep(s, (IF t = 0 THEN <<>> ELSE [j \in DOMAIN G.m |-> JN("cancel", G.m[j].c, t)]) \o <<[j |-> "gwait", c |-> w, o |-> NoOut, n |-> 2, g |-> i.a]>>)
WithRes(s, w, o) ==     \* the body or the teardown has ended with o
  LET C == s.co[w]
  IN IF C.wp = 1
     THEN LET s1 == Out([s EXCEPT !.co[w].wp = 2, !.co[w].st = "run",
                                  !.co[w].bo = IF o.k = "ok" THEN o
                                               ELSE IF WithFlag(s, w, "n") /\ WithVoid(s, w) THEN Ok(0)       \* the teardown clears the exception
                                               ELSE IF WithFlag(s, w, "m") THEN [k |-> "x", v |-> WithArg(s, w, "m")] ELSE o],
                       [e |-> "wt", c |-> w, k |-> o.k, v |-> IF o.k = "ok" THEN 0 ELSE o.v])
          IN Rep(s1, <<J("wtear", w)>>)
     ELSE LET r == IF C.bo.k = "ok" /\ o.k # "ok" THEN o ELSE IF C.bo.k = "ok" /\ WithVoid(s, w) THEN Ok(0) ELSE C.bo
          IN Rep([s EXCEPT !.co[w].st = "freed", !.co[w].aw = 0, !.co[C.aw].st = "run"], <<J("rd", w), JO("res", C.aw, r)>>)

\* ------------------------------------------------------------------------------------------------ wait_group
GMembers(s, g) == [j \in DOMAIN s.wg[g].m |-> s.wg[g].m[j].c]
CanWait(s, c, g) == /\ g \in Groups /\ s.wg[g].ex /\ s.wg[g].w = 0 /\ s.wg[g].lo > c
                    /\ LET w == s.wg[g].own IN w = 0 \/ (s.prog[w].body[1].op = "c" /\ s.prog[w].body[1].a = c)
CanPush(s, v, g) == /\ g \in Groups /\ s.wg[g].ex /\ s.vr[v].kind = "P" /\ s.vr[v].h # 0 /\ ~Busy(s, v)
                    /\ ~s.co[s.vr[v].h].taken /\ s.vr[v].h > s.wg[g].own
GroupDrop(s, g) == [s EXCEPT !.wg[g] = NoGroup,
                             !.stk = [j \in DOMAIN s.wg[g].m |-> JN("dropc", s.wg[g].m[j].c, IF s.wg[g].m[j].att THEN 1 ELSE 0)] \o @]
\* c starts to wait for one member (1) or all (2) of the group g
GWait(s, c, g, mode) ==
  LET ms == GMembers(s, g)
      dn == {j \in DOMAIN ms : s.co[ms[j]].done}
      lv == {ms[j] : j \in DOMAIN ms \ dn}
      f == [k |-> IF mode = 1 THEN "one" ELSE "all", m |-> ms, left |-> lv, win |-> 0, g |-> g, em |-> 0]
      s1 == [s EXCEPT !.co[c].fan = f, !.co[c].st = "fan", !.co[c].onv = 0, !.co[c].intr = FALSE, !.wg[g].w = c]
  IN IF ms = <<>> THEN Rep(s, <<JO("res", c, Ok(0))>>)
     ELSE IF mode = 1 /\ dn # {} THEN Rep(s1, <<J("pick", c)>>)
     ELSE LET s2 == [s1 EXCEPT !.co = [x \in DOMAIN @ |-> IF x \in lv THEN [@[x] EXCEPT !.aw = 200 + c]
                                                          ELSE IF \E j \in dn : ms[j] = x THEN [@[x] EXCEPT !.taken = TRUE] ELSE @[x]]]
          IN Rep(s2, IF lv = {} THEN <<J("fanres", c)>> ELSE <<>>)
\* one of them, r, is done
FanDone(s, c, r) ==
  LET F == s.co[c].fan
      s1 == [s EXCEPT !.co[r].taken = TRUE]
      s2 == IF F.k = "all" THEN [s1 EXCEPT !.co[c].fan.left = @ \ {r}]
            ELSE [s1 EXCEPT !.co[c].fan.left = {}, !.co[c].fan.win = r,
                            !.co = [x \in DOMAIN @ |-> IF @[x].aw = 200 + c THEN [@[x] EXCEPT !.aw = 0] ELSE @[x]]]
  IN Rep(s2, IF s2.co[c].fan.left = {} /\ F.em = 0 THEN <<J("fanres", c)>> ELSE <<>>)
FanRes(s, c) ==
  LET F == s.co[c].fan
      gone == IF F.k = "one" THEN {F.win} ELSE {F.m[j] : j \in DOMAIN F.m}
      gs == SelectSeq(F.m, LAMBDA x : x \in gone)
      s1 == [s EXCEPT !.co[c].st = "run", !.co[c].fan = NoFan, !.wg[F.g].w = 0, !.wg[F.g].m = SelectSeq(@, LAMBDA x : x.c \notin gone)]
  IN Rep(s1, [j \in DOMAIN gs |-> JN("dropc", gs[j], 0)] \o <<JO("res", c, IF F.k = "one" THEN s.co[F.win].outc ELSE Ok(0))>>)

CanAwait(s, c, v) ==
  /\ v \in DOMAIN s.vr /\ s.vr[v].ex /\ s.vr[v].h > c /\ s.vr[v].own \in {0, c}
  /\ LET r == s.vr[v].h IN IsGen(Kind(s, r)) \/ ~s.co[r].taken

\* ------------------------------------------------------------------- instructions that main can execute, too
Mine(s, who, v) == v \in DOMAIN s.vr /\ s.vr[v].ex /\ s.vr[v].own = who
Held(s, v) == v \in DOMAIN s.vr /\ s.vr[v].ex /\ s.vr[v].h # 0
HK(s, v) == Kind(s, s.vr[v].h)
Ready(s, r) == IF IsGen(Kind(s, r)) THEN s.co[r].res # <<>> \/ s.co[r].exc # NoOut ELSE s.co[r].done

Allowed(s, who, i) ==
  CASE i.op \in {"m", "l"} -> /\ i.a > who /\ i.a \in DOMAIN s.co /\ s.co[i.a].st = "none" /\ ~IsWith(s, i.a) /\ (i.op = "l" => who # 0)
    [] i.op = "x" -> Mine(s, who, i.a) /\ ~Busy(s, i.a)
    [] i.op = "n" -> Held(s, i.a) /\ ~IsTask(HK(s, i.a))
    [] i.op = "k" -> Mine(s, who, i.a) /\ ~Busy(s, i.a) /\ i.b \in Moved /\ ~s.vr[i.b].ex /\ s.vr[i.a].h # 0
    [] i.op = "a" -> /\ Mine(s, who, i.a) /\ ~Busy(s, i.a) /\ Mine(s, who, i.b) /\ ~Busy(s, i.b) /\ i.a # i.b
                     /\ s.vr[i.a].kind = s.vr[i.b].kind /\ ~IsTask(s.vr[i.a].kind) /\ s.vr[i.a].h # 0
    [] i.op \in {"e", "f"} -> Held(s, i.a) /\ IsProm(HK(s, i.a))
    [] i.op = "q" -> Held(s, i.a) /\ ~IsTask(HK(s, i.a))
    [] i.op = "j" -> /\ Held(s, i.a) /\ ~IsTask(HK(s, i.a)) /\ ~Busy(s, i.a) /\ Ready(s, s.vr[i.a].h)
                     /\ (IsProm(HK(s, i.a)) => ~s.co[s.vr[i.a].h].taken)
    [] i.op = "S" -> /\ Mine(s, who, i.a) /\ ~Busy(s, i.a) /\ s.vr[i.a].h # 0 /\ IsTask(HK(s, i.a))
                     /\ s.co[s.vr[i.a].h].st = "fresh"
    [] i.op = "N" -> i.a \in DOMAIN s.co /\ s.hs[i.a] # "no"
    [] i.op = "G" -> i.a \in Groups /\ ~s.wg[i.a].ex
    [] i.op = "p" -> Mine(s, who, i.a) /\ CanPush(s, i.a, i.b)
    [] i.op \in {"K", "Y", "M"} -> i.a \in Groups /\ s.wg[i.a].ex
    [] i.op = "F" -> i.a \in Groups /\ s.wg[i.a].ex /\ s.wg[i.a].w = 0 /\ s.wg[i.a].own = 0
    [] OTHER -> FALSE

NewVar(s, c, own) == [ex |-> TRUE, h |-> c, own |-> own, att |-> IsProm(Kind(s, c)), kind |-> Kind(s, c)]

Common(s0, who, pos, i) ==   \* the job on top is the executing coroutine or the command
  LET s == Adv(s0, who)
      cont == After(who)
      si == Out(s, EvI(who, pos))
  IN CASE i.op \in {"m", "l"} ->
            LET own == IF i.op = "l" THEN who ELSE 0
                sn == [si EXCEPT !.co[i.a].st = IF IsTask(Kind(s, i.a)) THEN "fresh" ELSE "run", !.co[i.a].rec = Kind(s, i.a) # "d", !.co[i.a].ex = ExOf(s, i.a)]
            IN Rep(sn, (IF IsTask(Kind(s, i.a)) THEN <<>> ELSE <<J("run", i.a)>>)
                       \o <<[j |-> "mk", c |-> i.a, o |-> NoOut, n |-> pos, who |-> who, own |-> own]>> \o cont)
     [] i.op = "x" -> Rep([si EXCEPT !.co = IF who = 0 THEN @ ELSE [@ EXCEPT ![who].owned = Without(@, i.a)]],
                          <<JN("drop", 0, i.a)>> \o cont)
     [] i.op = "n" -> Rep(si, <<JN("cancel", s.vr[i.a].h, IF i.b = 9 THEN 7 ELSE i.b)>> \o cont)
     [] i.op = "k" -> Rep([si EXCEPT !.vr[i.b] = [s.vr[i.a] EXCEPT !.own = who], !.vr[i.a].h = 0, !.vr[i.a].att = FALSE,
                                     !.co = IF who = 0 THEN @ ELSE [@ EXCEPT ![who].owned = Append(@, i.b)]], cont)
     [] i.op = "a" -> LET old == s.vr[i.b]
                      IN Rep([si EXCEPT !.vr[i.b].h = s.vr[i.a].h, !.vr[i.b].att = s.vr[i.a].att, !.vr[i.a].h = 0, !.vr[i.a].att = FALSE],
                             (IF old.h = 0 THEN <<>> ELSE <<JN("dropc", old.h, IF old.att THEN 1 ELSE 0)>>) \o cont)
     [] i.op = "e" -> Rep([si EXCEPT !.vr[i.a].att = FALSE], cont)
     [] i.op = "f" -> Rep([si EXCEPT !.vr[i.a].att = TRUE], cont)
     [] i.op = "q" -> LET r == s.vr[i.a].h
                          R == s.co[r]
                          rd == Ready(s, r)
                          b == IF IsGen(Kind(s, r)) THEN ~R.done \/ rd ELSE ~R.done \/ ~R.taken
                          v == (IF rd THEN 1 ELSE 0) + (IF b THEN 2 ELSE 0) + (IF s.vr[i.a].att THEN 4 ELSE 0)
                      IN Rep(Out(s, EvO(who, pos, Ok(v))), cont)
     [] i.op = "j" -> LET r == s.vr[i.a].h
                      IN IF IsGen(Kind(s, r))
                         THEN LET o == GenOutcome(s, r)
                                  s1 == IF s.co[r].exc # NoOut THEN [s EXCEPT !.co[r].exc = NoOut]
                                        ELSE [s EXCEPT !.co[r].res = Tail(@)]
                              IN Rep(Out(s1, EvO(who, pos, o)), cont)
                         ELSE Rep(Out([s EXCEPT !.co[r].taken = TRUE], EvO(who, pos, s.co[r].outc)), cont)
     [] i.op = "S" -> LET r == s.vr[i.a].h
                          s1 == [si EXCEPT !.vr[i.a].h = 0, !.co[r].aw = 100 + r, !.hs[r] = "set"]
                          mark == <<[j |-> "sp", c |-> r, o |-> NoOut, n |-> pos, who |-> who]>>
                      IN IF s.at = "c" THEN Rep([s1 EXCEPT !.co[r].st = "run"], <<J("run", r)>> \o mark \o cont)
                         ELSE Rep(Post([s1 EXCEPT !.co[r].st = "started"], [t |-> "start", c |-> r, o |-> NoOut]), mark \o cont)
     [] i.op = "G" -> Rep([si EXCEPT !.wg[i.a] = [NoGroup EXCEPT !.ex = TRUE, !.ct = i.b \div 10, !.xt = i.b % 10]], cont)
     [] i.op = "p" -> LET V == s.vr[i.a]
                      IN Rep([si EXCEPT !.wg[i.b].m = Append(@, [c |-> V.h, att |-> V.att]), !.wg[i.b].lo = IF V.h < @ THEN V.h ELSE @,
                                        !.vr[i.a] = NoVar, !.co = IF who = 0 THEN @ ELSE [@ EXCEPT ![who].owned = Without(@, i.a)]], cont)
     [] i.op = "K" -> LET ms == GMembers(s, i.a)
                      IN Rep(si, [j \in DOMAIN ms |-> JN("cancel", ms[j], IF i.b = 9 THEN 7 ELSE i.b)] \o cont)
     [] i.op = "Y" -> LET R(x) == s.co[x.c].done /\ ~s.co[x.c].taken
                          out == SelectSeq(s.wg[i.a].m, R)
                          left == SelectSeq(s.wg[i.a].m, LAMBDA x : ~R(x))
                      IN Rep(Out([s EXCEPT !.wg[i.a].m = left, !.co = [x \in DOMAIN @ |-> IF \E j \in DOMAIN out : out[j].c = x THEN [@[x] EXCEPT !.rec = FALSE] ELSE @[x]]],
                                 EvO(who, pos, Ok(Len(out) + 100 * Len(left)))), cont)
     [] i.op = "M" -> Rep(Out(s, EvO(who, pos, Ok(Len(s.wg[i.a].m)))), cont)
     [] i.op = "F" -> GroupDrop(Rep(si, cont), i.a)
     [] i.op = "N" -> IF s.hs[i.a] # "set" THEN Rep(si, cont)
                      ELSE IF s.at = "c" THEN Rep(si, <<JN("cancel", i.a, i.b)>> \o cont)
                      ELSE Rep(Post(si, [t |-> "can", c |-> i.a, o |-> Ok(i.b)]), cont)

\* ------------------------------------------------------------------------------ instructions of coroutines
Cancelled(s, c) == s.co[c].tic /\ s.co[c].cs # 0

Exec(s, c) ==
  LET i == Instr(s, c)
      pc == s.co[c].pc
      k == Kind(s, c)
      sb == [s EXCEPT !.co[c].begun = TRUE]
      si == Out(sb, EvI(c, pc))
      skip == Rep(Out(Adv(sb, c), [e |-> "skip", c |-> c, pc |-> pc]), <<J("run", c)>>)
      next == Rep(Adv(si, c), <<J("run", c)>>)
  IN CASE i.op = "w" -> IF ~CanAwait(s, c, i.a) THEN skip
                        ELSE IF Cancelled(s, c) THEN Rep(si, <<JO("res", c, Err("aborted"))>>)
                        ELSE Await(si, c, i.a, i)
       [] i.op = "o" -> IF i.a \notin DOMAIN s.op THEN skip
                        ELSE IF s.op[i.a].st # "no" THEN skip
                        ELSE IF Cancelled(s, c) THEN Rep([si EXCEPT !.op[i.a].st = "used"], <<JO("res", c, Err("aborted"))>>)
                        ELSE Rep(Out([si EXCEPT !.op[i.a] = [st |-> "pend", who |-> c, r |-> i.r], !.co[c].st = "op", !.co[c].on = i.a],
                                     [e |-> "init", k |-> i.a, slot |-> Slotted(s, c)]), <<>>)
       [] i.op = "B" -> IF ~CanWait(s, c, i.a) THEN skip
                        ELSE IF Cancelled(s, c) THEN Rep(si, <<JO("res", c, Err("aborted"))>>)
                        ELSE GWait(si, c, i.a, i.b)
       [] i.op = "A" -> IF ~CanWith(s, c, i.a) THEN skip
                        ELSE LET b == s.prog[i.a].body[1]
                                 g == WithGroup(s, i.a)
                                 t == s.prog[i.a].body[2].b
                                 r0 == [Reserve(Reserve(si, b), s.prog[i.a].body[2]) EXCEPT !.co[i.a].tic = FALSE]
                                 r == IF g = 0 THEN r0 ELSE [r0 EXCEPT !.wg[g] = [NoGroup EXCEPT !.ex = TRUE, !.ct = t \div 10, !.xt = t % 10, !.own = i.a]]
                             IN IF Cancelled(s, c)
                                THEN Rep([r EXCEPT !.co[i.a].st = "freed"], <<J("rd", i.a), JO("res", c, Err("aborted"))>>)
                                ELSE WithRun(Out([r EXCEPT !.co[c].st = "aw", !.co[c].on = i.a, !.co[c].onv = 0, !.co[c].intr = FALSE,
                                                           !.co[i.a].aw = c, !.co[i.a].wp = 1, !.co[i.a].st = "run", !.co[i.a].ex = s.co[c].ex],
                                                 [e |-> "wb", c |-> i.a]), i.a, b)
       [] i.op = "h" -> Rep(si, <<JO("res", c, IF Cancelled(s, c) THEN Err("aborted") ELSE Ok(0))>>)
       [] i.op = "t" -> Rep(si, <<J("unw", c), JO("thrown", c, [k |-> "x", v |-> i.a])>>)
       [] i.op = "r" -> LET s1 == IF ~si.co[c].rec THEN si
                                  ELSE IF IsGen(k) THEN [si EXCEPT !.co[c].res = Append(@, i.a)]
                                  ELSE [si EXCEPT !.co[c].outc = Ok(IF IsVoid(k) THEN 0 ELSE i.a), !.co[c].done = TRUE]
                        IN Rep(s1, <<J("unw", c), J("final", c)>>)
       [] i.op = "c" -> [next EXCEPT !.co[c].tic = i.a # 0]
       [] i.op = "z" -> Rep(Out(Adv(sb, c), EvO(c, pc, Ok(s.co[c].cs + (IF s.co[c].tic THEN 8 ELSE 0)))), <<J("run", c)>>)
       [] i.op = "b" -> Rep(Out(Adv(sb, c), EvO(c, pc, Ok(1 + s.co[c].ex + IF s.prog[c].x THEN 8 ELSE 4))), <<J("run", c)>>)
       [] i.op = "s" -> [next EXCEPT !.co[c].cs = 0, !.co[c].fi = IF i.n = 0 THEN 7 ELSE i.a,
                                     !.co[c].fo = IF i.n = 0 THEN 7 ELSE IF i.n = 1 THEN i.a ELSE i.b]
       [] i.op = "R" -> IF k # "d" \/ s.co[c].src THEN skip
                        ELSE [next EXCEPT !.co[c].src = TRUE, !.co[c].cs = 0, !.co[c].fi = 7, !.co[c].fo = 7]
       [] i.op = "y" -> IF ~IsGen(k) THEN skip
                        ELSE IF ~s.co[c].rec THEN Rep(si, <<J("free", c)>>)    \* nobody is interested any more
                        ELSE LET s1 == [si EXCEPT !.co[c].st = "yield", !.co[c].res = Append(@, i.a), !.co[c].aw = 0]
                             IN IF s.co[c].push # <<>> /\ k = "g"    \* only after the deviation "push_ahead": it goes on at once
                                THEN Rep([si EXCEPT !.co[c].res = Append(@, i.a), !.co[c].st = "yield"], <<J("yres", c)>>)
                                ELSE Rep(s1, IF s.co[c].aw # 0 THEN <<J("gres", s.co[c].aw)>> ELSE <<>>)
       [] i.op = "i" -> IF ~IsGen(k) \/ pc # 1 THEN skip
                        ELSE Rep([si EXCEPT !.co[c].st = "yield", !.co[c].lazy = TRUE], <<>>)
       [] OTHER -> IF Allowed(s, c, i) THEN Common(sb, c, pc, i) ELSE skip

\* --------------------------------------------------------------------------------------------------- jobs
Freed(s, c) == [s EXCEPT !.fd = @ \cup {c}, !.co[c].st = "freed"]

Raise(s) ==    \* an exception leaves the coroutine that was executing: whoever resumed it gets it
  LET o == Top(s).o
      m == s.stk[2]
      s1 == [s EXCEPT !.stk = Tail(@)]
  IN IF m.j = "mk" THEN Rep(Out(s1, EvO(m.who, m.n, o)), <<>>)
     ELSE IF m.j = "sp" THEN Rep(Out(s1, EvO(m.who, m.n, o)), <<>>)
     ELSE (* cmd *) Out(s1, [e |-> "exc", k |-> o.k, v |-> o.v])

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE <<MinOf(S)>> \o Ascending(S \ {MinOf(S)})
Droppable(s) == {v \in DOMAIN s.vr : s.vr[v].ex /\ s.vr[v].own = 0 /\ ~Busy(s, v)}

Step(s) ==
  LET t == Top(s)
      c == t.c
  IN CASE t.j = "run" -> Exec([s EXCEPT !.co[c].st = "run"], c)
       [] t.j = "res" /\ IsWith(s, c) -> WithRes(s, c, t.o)
       [] t.j = "wtear" -> WithRun(s, c, s.prog[c].body[2])
       [] t.j = "waw" ->    \* a with awaits the coroutine of its body or teardown
            LET R == s.co[t.n]
                s1 == [s EXCEPT !.co[c].on = t.n, !.co[c].onv = 0, !.co[c].intr = FALSE]
                sw == [s1 EXCEPT !.co[c].st = "aw", !.co[t.n].aw = c]
            IN IF R.done THEN CoResume(s1, c)
               ELSE IF R.st = "fresh" THEN Rep([sw EXCEPT !.co[t.n].st = "run", !.co[t.n].ex = s.co[c].ex], <<J("run", t.n)>>)
               ELSE Rep(sw, <<>>)
       [] t.j = "res" ->    \* the outcome of an await
            LET i == Instr(s, c)
                s1 == Adv(Out(s, EvO(c, s.co[c].pc, t.o)), c)
            IN IF t.o.k # "ok" /\ i.up THEN Rep(s1, <<J("unw", c), JO("thrown", c, t.o)>>) ELSE Rep(s1, <<J("run", c)>>)
       [] t.j = "cres" -> CoResume(s, c)
       [] t.j = "gres" -> GenResume(s, c)
       [] t.j = "gwait" -> GWait(s, c, t.g, t.n)
       [] t.j = "fan" -> FanDone(s, c, t.n)
       [] t.j = "fanres" -> FanRes(s, c)
       [] t.j = "fcan" -> IF t.n \in s.co[c].fan.left THEN Rep(s, <<JN("cancel", t.n, t.o.v)>>) ELSE Rep(s, <<>>)
       [] t.j = "fend" -> LET s1 == [s EXCEPT !.co[c].fan.em = @ - 1]
                          IN Rep(s1, IF s1.co[c].fan.left = {} /\ s1.co[c].fan.em = 0 THEN <<J("fanres", c)>> ELSE <<>>)
       [] t.j = "yres" ->   \* a generator continues after a yield
            Rep(Out([s EXCEPT !.co[c].push = <<>>, !.co[c].pc = @ + 1, !.co[c].st = "run"],
                    EvO(c, s.co[c].pc, Ok(IF Kind(s, c) = "G" THEN Head(s.co[c].push) ELSE 0))), <<J("run", c)>>)
       [] t.j = "unw" ->    \* the locals of a coroutine are destroyed
            LET o == s.co[c].owned
            IN Rep(Out([s EXCEPT !.co[c].owned = <<>>, !.co[c].intr = FALSE], [e |-> "ld", c |-> c]),
                   [i \in DOMAIN o |-> JN("drop", 0, Reverse(o)[i])])
       [] t.j = "thrown" -> \* an exception has left the body
            IF s.co[c].rec
            THEN LET s1 == IF IsGen(Kind(s, c)) THEN [s EXCEPT !.co[c].exc = t.o]
                           ELSE [s EXCEPT !.co[c].outc = t.o, !.co[c].done = TRUE]
                 IN Rep(s1, <<J("final", c)>>)
            ELSE Rep([s EXCEPT !.lk = @ \cup {c}, !.co[c].st = "freed"], <<JO("raise", c, t.o)>>)
       [] t.j = "raise" -> Raise(s)
       [] t.j = "final" ->  \* the body is done; its awaiter continues
            LET a == s.co[c].aw
                s1 == Freed([s EXCEPT !.co[c].done = TRUE, !.co[c].aw = 0], c)
            IN IF a = 0 THEN Rep(s1, <<>>)
               ELSE IF a > 200 THEN Rep(s1, <<JN("fan", a - 200, c)>>)
               ELSE IF a > 100
               THEN LET e == [t |-> "hnd", c |-> c, o |-> s.co[c].outc]
                    IN Rep(IF s.hx THEN [s1 EXCEPT !.qh = Append(@, e)] ELSE Post(s1, e), <<>>)
               ELSE Rep(s1, <<J(IF IsGen(Kind(s, c)) THEN "gres" ELSE "cres", a)>>)
       [] t.j = "mk" ->
            LET s1 == IF Kind(s, c) = "d" THEN s
                      ELSE [s EXCEPT !.vr[c] = NewVar(s, c, t.own),
                                     !.co = IF t.own = 0 THEN @ ELSE [@ EXCEPT ![t.own].owned = Append(@, c)]]
            IN Rep(Out(s1, EvO(t.who, t.n, Ok(0))), <<>>)
       [] t.j = "sp" -> Rep(Out(s, EvO(t.who, t.n, Ok(0))), <<>>)
       [] t.j = "cancel" ->
            LET C == s.co[c]
                cs == And(t.n, C.fi)
                o == And(cs, C.fo)
                s1 == [s EXCEPT !.co[c].cs = cs]
            IN IF C.done \/ C.st = "freed" THEN Rep(s, <<>>)
               ELSE IF o = 0 THEN Rep(s1, <<>>)
               ELSE IF C.st = "aw" THEN Rep(s1, <<JN("cancel", C.on, o)>>)
               ELSE IF C.st = "fan"
               THEN Rep([s1 EXCEPT !.co[c].fan.em = @ + 1],
                        [j \in DOMAIN C.fan.m |-> [j |-> "fcan", c |-> c, o |-> Ok(o), n |-> C.fan.m[j]]] \o <<J("fend", c)>>)
               ELSE IF C.st = "op" /\ s.op[C.on].st = "pend"
               THEN LET s2 == Out(s1, [e |-> "cx", k |-> C.on, t |-> o])
                    IN IF s.op[C.on].r = "a" /\ ~s.closing
                       THEN Rep(PostTo([s2 EXCEPT !.op[C.on].st = "posted"], c, [t |-> "op", c |-> C.on, o |-> Err("aborted")]), <<>>)
                       ELSE Rep(s2, <<>>)
               ELSE Rep(s1, <<>>)
       [] t.j = "drop" ->   \* a variable is destroyed
            LET V == s.vr[t.n]
                s1 == [s EXCEPT !.vr[t.n] = NoVar]
            IN Rep(s1, IF V.h = 0 THEN <<>> ELSE <<JN("dropc", V.h, IF V.att THEN 1 ELSE 0)>>)
       [] t.j = "dropc" ->  \* the handle of coroutine c is destroyed or overwritten
            IF s.co[c].done THEN Rep([s EXCEPT !.co[c].rec = FALSE], <<>>)
            ELSE IF IsTask(Kind(s, c)) THEN Rep(s, <<J("orphan", c)>>)
            ELSE Rep(s, (IF t.n = 1 \/ IsGen(Kind(s, c)) THEN <<JN("cancel", c, 7)>> ELSE <<>>) \o <<J("orphan", c)>>)
       [] t.j = "orphan" ->
            LET st == s.co[c].st
            IN Rep([s EXCEPT !.co[c].rec = FALSE], IF st = "fresh" \/ (IsGen(Kind(s, c)) /\ st = "yield") THEN <<J("free", c)>> ELSE <<>>)
       [] t.j = "free" /\ IsWith(s, c) ->
            LET a == s.co[c].aw
            IN Rep([s EXCEPT !.co[c].st = "freed", !.co[c].aw = 0], (IF a = 0 THEN <<>> ELSE <<J("free", a)>>) \o <<J("rd", c)>>)
       [] t.j = "rd" -> LET g == WithGroup(s, c)
                        IN IF g = 0 THEN Rep(Out(s, [e |-> "rd", c |-> c]), <<>>) ELSE GroupDrop(Rep(s, <<J("rd2", c)>>), g)
       [] t.j = "rd2" -> Rep(Out(s, [e |-> "rd", c |-> c]), <<>>)
       [] t.j = "free" ->   \* a suspended coroutine is destroyed
            Rep([s EXCEPT !.co[c].st = "freeing"], (IF s.co[c].begun THEN <<J("unw", c)>> ELSE <<>>) \o <<J("free2", c)>>)
       [] t.j = "free2" ->
            LET C == s.co[c]
                s1 == IF ~C.rec THEN s
                      ELSE IF IsGen(Kind(s, c)) THEN [s EXCEPT !.co[c].exc = IF C.done \/ @ # NoOut THEN @ ELSE Err("unexpected"), !.co[c].done = TRUE]
                      ELSE [s EXCEPT !.co[c].outc = IF C.done THEN @ ELSE Err("unexpected"), !.co[c].done = TRUE]
                s2 == Freed([s1 EXCEPT !.co[c].aw = 0, !.wg = IF C.fan.g = 0 THEN @ ELSE [@ EXCEPT ![C.fan.g].w = 0], !.co[c].fan = NoFan], c)
            IN IF C.aw > 200 THEN LET s3 == [s2 EXCEPT !.co[C.aw - 200].fan.left = @ \ {c}]
                                  IN Rep(s3, IF s3.co[C.aw - 200].fan.left = {} THEN <<J("free", C.aw - 200)>> ELSE <<>>)
               ELSE IF ~C.rec \/ C.aw = 0 THEN Rep(s2, <<>>)
               ELSE IF C.aw > 100 THEN Rep([s2 EXCEPT !.spd = @ \cup {c}, !.hs[c] = "gone"], <<>>)
               ELSE Rep(s2, <<J("free", C.aw)>>)
       [] t.j = "cmd" -> Rep(s, <<>>)
       [] t.j = "dead" -> s
       \* the end of the program
       [] t.j = "dropvars" -> Rep(Out(s, [e |-> "dropvars"]), <<J("dvs", 0)>>)
       [] t.j = "dgs" -> LET gs == {g \in Groups : s.wg[g].ex /\ s.wg[g].w = 0 /\ s.wg[g].own = 0}
                         IN IF gs = {} THEN Rep(Out(s, [e |-> "dropped"]), <<>>)
                            ELSE GroupDrop(Rep(Out(s, [e |-> "dg", g |-> MinOf(gs)]), <<J("dgs", 0)>>), MinOf(gs))
       [] t.j = "dvs" -> IF Droppable(s) = {} THEN Rep(s, <<J("dgs", 0)>>)
                         ELSE LET v == MinOf(Droppable(s)) IN Rep(Out(s, [e |-> "dv", v |-> v]), <<JN("drop", 0, v), J("dvs", 0)>>)
       [] t.j = "close" ->
            LET ks == Ascending({k \in DOMAIN s.op : s.op[k].st = "pend"})
            IN Rep(Out([s EXCEPT !.closing = TRUE], [e |-> "close"]), [i \in DOMAIN ks |-> J("dropop", ks[i])] \o <<J("die", 0)>>)
       [] t.j = "dropop" -> Rep(Out([s EXCEPT !.op[c].st = "fin"], [e |-> "drop", k |-> c]), <<J("free", s.op[c].who)>>)
       [] t.j = "end" -> Rep(Out(s, [e |-> "end", vars |-> 0, mem |-> 0, bad |-> 0]), <<>>)
       [] t.j = "ret" -> Rep(Out([s EXCEPT !.at = "-"], [e |-> "ret", n |-> t.n]), <<>>)

\* something that was posted is executed
Without1(q, j) == [i \in 1..(Len(q) - 1) |-> IF i < j THEN q[i] ELSE q[i + 1]]
Exe(s0, e, at) ==
  LET s == [s0 EXCEPT !.at = at]
  IN CASE e.t = "op" -> [s EXCEPT !.op[e.c].st = "fin", !.stk = <<JO("res", s.op[e.c].who, e.o)>> \o @]
       [] e.t = "gen" -> IF s.co[e.c].rec THEN [s EXCEPT !.stk = <<J("yres", e.c)>> \o @] ELSE [s EXCEPT !.stk = <<J("free", e.c)>> \o @]
       [] e.t = "start" -> [s EXCEPT !.stk = <<J("run", e.c)>> \o @]
       [] e.t = "can" -> [s EXCEPT !.stk = <<JN("cancel", e.c, e.o.v)>> \o @]
       [] e.t = "hnd" -> [Out(s, [e |-> "sp", v |-> e.c, k |-> e.o.k, x |-> e.o.v, h |-> s.hx]) EXCEPT !.hs[e.c] = "gone", !.co[e.c].rec = FALSE]
PollQ(s, j) == Exe([s EXCEPT !.q = Without1(@, j)], s.q[j], "c")
PollH(s, j) == Exe([s EXCEPT !.qh = Without1(@, j)], s.qh[j], "h")

\* what was posted is destroyed with its context
Die(s, e) ==
  CASE e.t = "op" -> [s EXCEPT !.op[e.c].st = "fin", !.stk = <<J("free", s.op[e.c].who)>> \o @]
    [] e.t \in {"gen", "start"} -> [s EXCEPT !.stk = <<J("free", e.c)>> \o @]
    [] e.t = "can" -> s
    [] e.t = "hnd" -> [s EXCEPT !.spd = @ \cup {e.c}, !.hs[e.c] = "gone"]

\* ------------------------------------------------------------------------------- commands of the main program
Interruptible(s, c) == c \in DOMAIN s.co /\ s.co[c].st = "aw" /\ s.co[c].intr
CmdAllowed(s, i) ==
  CASE i.op \in {"C", "E"} -> i.a \in DOMAIN s.op /\ s.op[i.a].st = "pend"
    [] i.op = "I" -> Interruptible(s, i.a)
    [] i.op = "D" -> i.a \in DOMAIN s.co /\ s.co[i.a].src
    [] i.op \in {"P", "Q", "X"} -> TRUE
    [] OTHER -> i.op # "l" /\ Allowed(s, 0, i)

Command(s0, n, i) ==
  LET s == [s0 EXCEPT !.stk = <<JN("ret", 0, n)>>, !.n = n]
      p == [s EXCEPT !.stk = <<J("cmd", 0)>> \o @]
      si == Out(s, EvI(0, n))
  IN IF ~CmdAllowed(s, i) THEN Out(s, [e |-> "skip", c |-> 0, pc |-> n])
     ELSE CASE i.op \in {"C", "E"} -> PostTo([si EXCEPT !.op[i.a].st = "posted"], s.op[i.a].who,
                                           [t |-> "op", c |-> i.a, o |-> IF i.op = "C" THEN Ok(i.b) ELSE [k |-> "ec", v |-> i.b]])
            [] i.op = "I" -> LET r == s.co[i.a].on
                             IN [si EXCEPT !.co[r].aw = 0, !.co[i.a].st = "run", !.co[i.a].onv = 0,
                                             !.stk = <<JO("res", i.a, Err("detached")), J("cmd", 0)>> \o @]
            [] i.op = "D" -> [si EXCEPT !.stk = <<JN("cancel", i.a, i.b)>> \o @]
            [] i.op \in {"P", "Q", "X"} -> [si EXCEPT !.stk = <<J("poll" \o i.op, 0)>> \o @]
            [] OTHER -> Common(p, 0, n, i)

Ending(s, ctxfirst) ==
  [s EXCEPT !.phase = "end",
            !.stk = (IF ctxfirst THEN <<>> ELSE <<J("dropvars", 0), J("poll2", 0)>>) \o <<J("close", 0), J("dropvars", 0), J("end", 0)>>]

\* ------------------------------------------------------------- the executions contexts: the only nondeterminism
Idle(s) == s.stk = <<>> /\ s.out = <<>>
Polling(s) == s.stk # <<>> /\ Top(s).j \in {"pollP", "pollQ", "pollX", "poll2", "die", "ahead", "pick", "dead"}
One(s) == [s EXCEPT !.stk = <<J("cmd", 0)>> \o Tail(@)]
IdleEv(s, name) == Rep(Out([s EXCEPT !.at = "-"], [e |-> name]), <<>>)
Drop1(s, j) == Die([s EXCEPT !.q = Without1(@, j)], s.q[j])
DropH(s, j) == Die([s EXCEPT !.qh = Without1(@, j)], s.qh[j])
PollSucc(s) ==
  LET j == Top(s).j
      qs == DOMAIN s.q
      hs == DOMAIN s.qh
  IN CASE j = "pollP" -> IF qs = {} THEN {IdleEv(s, "idle")} ELSE {PollQ(One(s), i) : i \in qs}
       [] j = "pollQ" -> IF qs = {} THEN {IdleEv(s, "idle")} ELSE {PollQ(s, i) : i \in qs}
       [] j = "pollX" -> IF hs = {} THEN {IdleEv(s, "idle")} ELSE {PollH(One(s), i) : i \in hs}
       [] j = "poll2" -> IF qs # {} THEN {PollQ(s, i) : i \in qs}
                         ELSE IF hs # {} THEN {PollH(s, i) : i \in hs} ELSE {IdleEv(s, "idle2")}
       \* a lazy generator without pushed values is awaited while it runs.  The deviation: it is marked to be resumed
       \* now, so that its next yield does not wake the one who awaits it
       [] j = "ahead" -> {Rep(s, <<>>)} \cup
                         IF "push_ahead" \notin s.dev THEN {}
                         ELSE LET c == Top(s).c
                                  r == s.co[c].on
                              IN {Rep([s EXCEPT !.co[r].push = <<0>>, !.co[c].topush = FALSE, !.kf = @ \cup {"push_ahead"}], <<>>)}
       \* several members of a group are done: wait_one takes any of them
       [] j = "pick" -> LET c == Top(s).c  F == s.co[c].fan
                        IN {Rep([s EXCEPT !.co[r].taken = TRUE, !.co[c].fan.win = r, !.co[c].fan.left = {}], <<J("fanres", c)>>)
                            : r \in {F.m[i] : i \in {i \in DOMAIN F.m : s.co[F.m[i]].done}}}
       [] j = "dead" -> {}
       [] j = "die" -> IF qs # {} THEN {Drop1(s, i) : i \in qs}
                       ELSE IF hs # {} THEN {DropH(s, i) : i \in hs} ELSE {Rep(Out(s, [e |-> "closed"]), <<>>)}

\* runs until there is something to be seen or to be decided
RECURSIVE Norm(_)
Norm(s) == IF s.out # <<>> \/ s.stk = <<>> \/ Polling(s) THEN s ELSE Norm(Step(s))
=============================================================================
