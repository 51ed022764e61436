------------------------------- MODULE CombMC -------------------------------
(* Exhaustive exploration of Comb for small trees whose leaves follow scripts.  The environment acts only *)
(* when the system is quiescent; every environment action is printed with the ones before it (GEN lines). *)
EXTENDS Comb, Json
CONSTANTS Trees, Scripts, MaxFaults, MaxTx, Emit
VARIABLES sc, hist, order, touched, faults, ntx
vars == <<S, sc, hist, order, touched, faults, ntx>>
view == <<S, sc, order, touched, faults, ntx, hist = <<>>>>

\* scripts: start s(uspend) r(eady) e(rror); reaction to cancellation a(bort) k(eep) v(alue), to interrupt a k
Leaves(s) == {n \in Nodes(s) : ~Inner(s, n)}
LeafScripts == {x \in Scripts : x[1] = "s" \/ (x[2] = "k" /\ x[3] = "k")}

RECURSIVE Up(_, _)
Up(par, n) == IF n = 0 THEN <<>> ELSE <<n>> \o Up(par, par[n])
\* a tree from its kinds, children and interruptibility
Mk(kind, kids, itb) ==
  LET N == DOMAIN kind
      par == [n \in N |-> IF \E p \in N : n \in {kids[p][i] : i \in DOMAIN kids[p]}
                          THEN CHOOSE p \in N : n \in {kids[p][i] : i \in DOMAIN kids[p]} ELSE 0]
  IN [kind |-> kind, kids |-> kids, itb |-> itb, par |-> par,
      idx |-> [n \in N |-> IF par[n] = 0 THEN 1 ELSE CHOOSE i \in DOMAIN kids[par[n]] : kids[par[n]][i] = n],
      anc |-> [n \in N |-> Up(par, n)], vd |-> [n \in N |-> FALSE], rdy |-> [n \in N |-> FALSE]]
Y(n) == [i \in 1..n |-> TRUE]
NN(n) == [i \in 1..n |-> FALSE]
Flat(k, n, itb) == Mk(<<k>> \o [i \in 1..n |-> "p"], <<[i \in 1..n |-> i + 1]>> \o [i \in 1..n |-> <<>>], itb)
\* root a over (b over two leaves, leaf)
Nest(a, b, itb) == Mk(<<a, b, "p", "p", "p">>, <<<<2, 5>>, <<3, 4>>, <<>>, <<>>, <<>>>>, itb)
\* root a over (leaf, b over two leaves)
Nest2(a, b, itb) == Mk(<<a, "p", b, "p", "p">>, <<<<2, 3>>, <<>>, <<4, 5>>, <<>>, <<>>>>, itb)

FlatTrees == {Flat(k, 2, b) : k \in {"R", "L", "Z", "G", "J"}, b \in {Y(3), NN(3)}}
Flat3 == {Flat(k, 3, b) : k \in {"R", "L", "G", "J"}, b \in {Y(4), NN(4)}}
NestTrees == {Nest(a, b, i) : a \in {"R", "G", "J"}, b \in {"R", "G", "J"}, i \in {Y(5), NN(5)}}
NestTrees2 == {Nest2(a, b, i) : a \in {"L", "G", "J", "Z"}, b \in {"R", "G", "J"}, i \in {Y(5), NN(5)}}
AllTrees == FlatTrees \cup Flat3 \cup NestTrees \cup NestTrees2
SomeTrees == FlatTrees \cup NestTrees
ScAll == {"s", "r", "e"} \X {"a", "k", "v"} \X {"a", "k"}
ScSome == {<<"s", "a", "a">>, <<"s", "a", "k">>, <<"s", "k", "k">>, <<"r", "k", "k">>, <<"e", "k", "k">>}
ScFew == {<<"s", "a", "k">>, <<"s", "k", "a">>, <<"e", "k", "k">>}

Init == /\ \E t \in Trees : S = InitS(t)
        /\ sc \in [Leaves(S) -> LeafScripts]
        /\ hist = <<>> /\ order = <<>> /\ touched = {} /\ faults = 0 /\ ntx = 0

Done(s, n, o) == /\ S' = Complete(s, n, o) /\ order' = Append(order, n)
Ok(n) == [r |-> "ok", v |-> n]
Ab == [r |-> "aborted", v |-> 0]
Er(n) == [r |-> "x" \o ToString(n), v |-> 0]

Started(n) == S.st[n] \in {"open", "pend"}
StartStep == \E n \in Nodes(S) :
  /\ CanStart(S, n)
  /\ hist # <<>>
  /\ IF Inner(S, n) THEN S' = Susp(Try(S, n), n) /\ UNCHANGED order
     ELSE CASE sc[n][1] = "s" -> S' = Susp(S, n) /\ UNCHANGED order
            [] sc[n][1] = "r" -> Done(S, n, Ok(n))
            [] sc[n][1] = "e" -> Done(S, n, Er(n))
  /\ UNCHANGED <<touched>>
IntrStep == \E n \in Pending(S, S.dI) :
  /\ LET s1 == Intr(S, n) IN
       IF ~Inner(S, n) /\ sc[n][3] = "a" /\ n \notin S.tx THEN Done(s1, n, Ab)
       ELSE S' = s1 /\ UNCHANGED order
  /\ touched' = touched \cup {n}
CancStep == \E x \in Owed(S) :
  /\ LET n == x[1]  s1 == Canc(S, n, x[2]) IN
       CASE sc[n][2] = "a" -> Done(s1, n, Ab)
         [] sc[n][2] = "v" -> Done(s1, n, Ok(n))
         [] OTHER -> S' = s1 /\ UNCHANGED order
  /\ touched' = touched \cup {x[1]}
RetStep == \E n \in Nodes(S) :
  /\ Completable(S, n)
  \* a combinator still starting its children does not return
  /\ ~\E c \in KidSet(S, n) : CanStart(S, c) /\ ~Decided(S, n)
  /\ S' = Return(S, n) /\ order' = Append(order, n) /\ UNCHANGED touched
System == (StartStep \/ IntrStep \/ CancStep \/ RetStep) /\ UNCHANGED <<sc, hist, faults, ntx>>

\* all of a join's children are started even when one has failed
Idle == \A n \in Nodes(S) : CanStart(S, n) => hist = <<>>
Still == Idle /\ Quiescent(S)
Env ==
  /\ hist # <<>> /\ Still /\ UNCHANGED sc
  /\ \/ \E n \in Leaves(S), ok \in BOOLEAN :
          /\ S.st[n] = "pend"
          /\ Done(Settle(S), n, IF ok THEN Ok(n) ELSE Er(n))
          /\ hist' = Append(hist, [a |-> IF ok THEN "F" ELSE "E", n |-> n])
          /\ UNCHANGED <<touched, faults, ntx>>
     \/ \E n \in Leaves(S) :
          /\ ntx < MaxTx /\ S.st[n] = "pend" /\ n \notin S.tx
          /\ S' = [BeginTx(Settle(S), n) EXCEPT !.must = 0]
          /\ hist' = Append(hist, [a |-> "T", n |-> n]) /\ ntx' = ntx + 1
          /\ UNCHANGED <<touched, faults, order>>
     \/ \E t \in {"all", "terminal"} :
          /\ faults < MaxFaults
          /\ S' = CancelRoot(Settle(S), t)
          /\ hist' = Append(hist, [a |-> "C", t |-> t]) /\ faults' = faults + 1
          /\ UNCHANGED <<touched, order, ntx>>
     \/ /\ faults < MaxFaults /\ S.st[1] = "pend"
        /\ S' = Intr(Settle(S), 1)
        /\ hist' = Append(hist, [a |-> "I"]) /\ faults' = faults + 1
        /\ UNCHANGED <<touched, order, ntx>>
Go == hist = <<>> /\ hist' = <<[a |-> "go"]>> /\ UNCHANGED <<S, sc, order, touched, faults, ntx>>

Next == System \/ Env \/ Go
Spec == Init /\ [][Next]_vars /\ WF_vars(System) /\ WF_vars(Go)
            /\ WF_vars(\E n \in Leaves(S) : Env /\ hist'[Len(hist')].a \in {"F", "E"})

EmitGen == IF Emit /\ Len(hist') > Len(hist)
           THEN PrintT("GEN " \o ToJson([kind |-> S.t.kind, kids |-> S.t.kids, itb |-> S.t.itb[2],
                                         sc |-> [n \in Leaves(S) |-> sc[n][1] \o sc[n][2] \o sc[n][3]], h |-> hist']))
           ELSE TRUE

----------------------------------------------------------------------------
Pos(n) == IF \E i \in DOMAIN order : order[i] = n THEN CHOOSE i \in DOMAIN order : order[i] = n ELSE 0
\* C04 the first completion (or transaction) decides a race
FirstWins == \A n \in Nodes(S) : Race(S, n) /\ S.win[n] # 0 =>
               S.win[n] \in S.tx \/ \A c \in KidSet(S, n) \ {S.win[n]} : Pos(c) # 0 => Pos(S.win[n]) < Pos(c)
\* C04 left_race examines in order, and nothing after the deciding branch
LeftOrder == \A n \in Nodes(S) : S.t.kind[n] = "L" =>
               \A i, j \in DOMAIN S.t.kids[n] :
                 i < j /\ S.st[S.t.kids[n][j]] # "idle" => S.st[S.t.kids[n][i]] # "idle"
\* nothing returns before everything it started has completed
AllDone == \A n \in Nodes(S) : Inner(S, n) /\ S.st[n] = "done" => \A c \in KidSet(S, n) : S.st[c] \in {"idle", "done"}
\* C06 C07 gather and (unfailed) join await everything
Everything == \A n \in Nodes(S) : S.st[n] = "done" /\ (S.t.kind[n] = "G" \/ (S.t.kind[n] = "J" /\ S.out[n].r = "ok")) =>
                \A c \in KidSet(S, n) : S.st[c] = "done"
\* C06 below gathers only, nobody is touched unless the root was
Undisturbed == faults = 0 /\ (\A n \in Nodes(S) : Inner(S, n) => S.t.kind[n] = "G") => touched = {}
\* C07 the error of a join is the first one
FirstError == \A n \in Nodes(S) : S.t.kind[n] = "J" /\ S.err[n] # "" =>
                \E c \in KidSet(S, n) : /\ S.st[c] = "done" /\ S.out[c].r = S.err[n]
                                        /\ \A d \in KidSet(S, n) \ {c} :
                                             Pos(d) # 0 /\ Pos(d) < Pos(c) => S.out[d].r = "ok"
\* C05 C07 when things have settled, whoever lost has been told
Told == hist # <<>> /\ Still => \A n \in Nodes(S) : Inner(S, n) /\ Decided(S, n) =>
          \A c \in KidSet(S, n) \ {S.win[n]} : S.st[c] = "pend" =>
             \A m \in Leaves(S) : S.st[m] = "pend" /\ c \in Anc(S, m)
                /\ (\A x \in Anc(S, m) \ {m} : c \in Anc(S, x) => ~Decided(S, x)) => m \in touched
\* C08 after the root has returned nothing is touched
After == [][S.st[1] = "done" => touched' = touched]_vars
Finishes == <>(S.st[1] = "done")
=============================================================================
