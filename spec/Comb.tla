-------------------------------- MODULE Comb --------------------------------
(***************************************************************************)
(* race, left_race, gather and join over a tree of awaitables.              *)
(*                                                                          *)
(* The tree S.t is fixed: kind[n] is "R" race, "Z" race<partial>, "L"        *)
(* left_race, "G" gather, "J" join or "p" a leaf; kids[n], par[n] (0 for the *)
(* root, which is node 1), idx[n] position among the siblings, anc[n] the    *)
(* ancestors including n; itb[n]: passed such that it can be interrupted;    *)
(* vd[n]: awaited as void; rdy[n]: the leaf is ready when asked.             *)
(*                                                                          *)
(* st[n]   idle not started | open asked whether it is ready | pend awaited  *)
(*         | done its outcome out[n] has been taken                          *)
(* win[n]  for a race: the child that decided it                             *)
(* err[n]  for a join: the error that decided it                             *)
(* dI      children that are still to be interrupted                         *)
(* dC      <<a, type, k>>: cancellation k of that type is on its way to all   *)
(*         pending leaves below a;  rcv: <<leaf, k>> that have received it    *)
(* ip      combinators that have been interrupted                            *)
(* fin     leaves that have finished, but whose awaiter is not yet resumed   *)
(* tx      leaves that began a transaction;  must: one that must be refused  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLE S

InitS(t) ==
  LET N == DOMAIN t.kind IN
  [t |-> t, st |-> [n \in N |-> "idle"], out |-> [n \in N |-> [r |-> "", v |-> 0]],
   win |-> [n \in N |-> 0], err |-> [n \in N |-> ""],
   dI |-> {}, dC |-> {}, rcv |-> {}, k |-> 0, ip |-> {}, fin |-> {}, tx |-> {}, must |-> 0]

Nodes(s) == DOMAIN s.t.kind
Inner(s, n) == s.t.kind[n] # "p"
Race(s, n) == s.t.kind[n] \in {"R", "Z", "L"}
KidSet(s, n) == {s.t.kids[n][i] : i \in DOMAIN s.t.kids[n]}
Anc(s, n) == {s.t.anc[n][i] : i \in DOMAIN s.t.anc[n]}
Ct(s, n) == IF s.t.kind[n] = "Z" THEN "partial" ELSE "all"
Siblings(s, n) == KidSet(s, s.t.par[n]) \ {n}
Pending(s, X) == {n \in X : s.st[n] = "pend"}

\* the other children of a decided combinator have already been told to stop
Decided(s, n) == s.win[n] # 0 \/ s.err[n] # ""

\* may c be started (asked whether it is ready)?
CanStart(s, c) ==
  LET p == s.t.par[c] IN
  /\ s.st[c] = "idle"
  /\ IF p = 0 THEN TRUE
     ELSE /\ s.st[p] \in {"open", "pend"}
          /\ s.win[p] = 0
          /\ s.t.kind[p] \in {"L", "G", "J"} =>
               \A i \in 1..(s.t.idx[c] - 1) : s.st[s.t.kids[p][i]] # "idle"

Try(s, n) == [s EXCEPT !.st[n] = "open"]

CanSusp(s, n) ==
  /\ IF Inner(s, n) THEN s.st[n] = "open" ELSE (CanStart(s, n) /\ ~s.t.rdy[n])
  /\ IF s.t.par[n] = 0 THEN TRUE ELSE s.st[s.t.par[n]] = "pend"
Susp(s, n) ==
  LET p == s.t.par[n]  s1 == [s EXCEPT !.st[n] = "pend"] IN
  IF p # 0 /\ s.err[p] # "" THEN [s1 EXCEPT !.dC = @ \cup {<<n, "all", s.k>>}, !.k = @ + 1]
  ELSE s1

\* child n decides the race p
DecideRace(s, p, n) ==
  LET losers == Pending(s, KidSet(s, p) \ {n}) IN
  [s EXCEPT !.win[p] = n,
            !.dI = @ \cup {c \in losers : s.t.itb[c]},
            !.dC = @ \cup {<<c, Ct(s, p), s.k>> : c \in losers}, !.k = @ + 1]

\* n completes with outcome o, which its parent takes
Complete(s, n, o) ==
  LET p == s.t.par[n]
      s1 == [s EXCEPT !.st[n] = "done", !.out[n] = o, !.fin = @ \ {n}, !.dI = @ \ {n}]
  IN IF p = 0 THEN s1
     ELSE IF Race(s, p) /\ s.win[p] = 0 THEN DecideRace(s1, p, n)
     ELSE IF s.t.kind[p] = "J" /\ o.r # "ok" /\ s.err[p] = "" THEN
       \* (cancelled instead of interrupted, if they were about to be)
       [s1 EXCEPT !.err[p] = o.r, !.dI = @ \ KidSet(s, p),
                  !.dC = @ \cup {<<c, "all", s.k>> : c \in Pending(s1, KidSet(s, p))}, !.k = @ + 1]
     ELSE s1

\* a combinator has what it needs, and nothing it started is still running
Completable(s, n) ==
  /\ Inner(s, n) /\ s.st[n] \in {"open", "pend"}
  /\ \A c \in KidSet(s, n) : s.st[c] \in {"idle", "done"}
  /\ IF Race(s, n) THEN s.win[n] # 0
     ELSE s.err[n] # "" \/ \A c \in KidSet(s, n) : s.st[c] = "done"

Val(s, c) == IF s.t.vd[c] THEN 0 ELSE s.out[c].v
\* the outcome of a completable combinator
Outcome(s, n) ==
  LET ks == s.t.kids[n]  c == s.win[n] IN
  IF Race(s, n) THEN
    IF s.out[c].r = "ok" THEN [r |-> "ok", i |-> s.t.idx[c] - 1, v |-> Val(s, c), outs |-> <<>>]
    ELSE [r |-> s.out[c].r, i |-> 0, v |-> 0, outs |-> <<>>]
  ELSE IF s.t.kind[n] = "G" THEN
    [r |-> "ok", i |-> 0, v |-> 0,
     outs |-> [i \in DOMAIN ks |-> IF s.out[ks[i]].r = "ok" THEN ToString(Val(s, ks[i])) ELSE s.out[ks[i]].r]]
  ELSE IF s.err[n] # "" THEN [r |-> s.err[n], i |-> 0, v |-> 0, outs |-> <<>>]
  ELSE [r |-> "ok", i |-> 0, v |-> 0,
        outs |-> IF \A c2 \in KidSet(s, n) : s.t.vd[c2] THEN <<>>
                 ELSE [i \in DOMAIN ks |-> ToString(Val(s, ks[i]))]]
Return(s, n) == LET o == Outcome(s, n) IN Complete(s, n, [r |-> o.r, v |-> o.v])

\* An interrupt must be owed; in a combinator that is being stopped it may be repeated.
CanIntr(s, n) ==
  /\ s.st[n] # "idle"
  /\ \/ n \in s.dI \/ s.st[n] = "done" \/ n \in s.tx
     \/ IF s.t.par[n] = 0 THEN TRUE ELSE s.win[s.t.par[n]] # 0 \/ s.t.par[n] \in s.ip
Intr(s, n) ==
  LET s1 == [s EXCEPT !.dI = @ \ {n}] IN
  IF Inner(s, n) /\ s.st[n] \in {"open", "pend"} THEN
    [s1 EXCEPT !.ip = @ \cup {n},
               !.dI = @ \cup (IF Decided(s, n) THEN {} ELSE {c \in Pending(s, KidSet(s, n)) : s.t.itb[c]})]
  ELSE s1

\* leaf n receives a cancellation of type t
Cancs(s, n, t) == {d \in s.dC : d[2] = t /\ d[1] \in Anc(s, n) /\ <<n, d[3]>> \notin s.rcv}
Canc(s, n, d) == [s EXCEPT !.rcv = @ \cup {<<n, d[3]>>}]

\* the coroutine awaiting the root is cancelled
CancelRoot(s, t) ==
  IF s.st[1] = "pend" THEN [s EXCEPT !.dC = @ \cup {<<1, t, s.k>>}, !.k = @ + 1] ELSE s

BeginTx(s, n) ==
  LET p == s.t.par[n]  s1 == [s EXCEPT !.tx = @ \cup {n}] IN
  IF p = 0 \/ ~Race(s, p) THEN s1
  ELSE IF s.win[p] = 0 THEN DecideRace(s1, p, n)
  ELSE [s1 EXCEPT !.must = n]

\* the cancellation d must have reached leaf l: nothing in between has already told its children to stop
Live(s, l, d) ==
  /\ ~Inner(s, l) /\ s.st[l] = "pend" /\ d[1] \in Anc(s, l)
  /\ \A m \in Anc(s, l) \ {l} : d[1] \in Anc(s, m) => ~Decided(s, m)
Owed(s) == {x \in Nodes(s) \X s.dC : Live(s, x[1], x[2]) /\ <<x[1], x[2][3]>> \notin s.rcv}

\* what must be true whenever control is back in the main program
Quiescent(s) ==
  /\ s.fin = {} /\ s.must = 0
  /\ s.st[1] # "idle"
  /\ \A n \in Nodes(s) :
       /\ s.st[n] # "open"
       /\ Inner(s, n) /\ s.st[n] = "pend" =>
            /\ ~Completable(s, n)
            /\ ~Decided(s, n) => \A c \in KidSet(s, n) : s.st[c] # "idle"
  /\ Pending(s, s.dI) = {}
  /\ Owed(s) = {}
Settle(s) == [s EXCEPT !.dI = {}, !.dC = {}, !.rcv = {}, !.k = 0]
=============================================================================
