----------------------------- MODULE CombTrace -----------------------------
(* Checks executions recorded by harness/comb.cpp against Comb. *)
EXTENDS Comb, Json, IOUtils
VARIABLES tid, l
vars == <<S, tid, l>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tid].ev
E == T[l]

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ S = InitS(Traces[tid].t)

Is(name) == l <= Len(T) /\ E.e = name
Refused == Traces[tid].t.refused
Leaf == ~Inner(S, E.n)

Event ==
  \/ Is("refused") /\ Refused /\ UNCHANGED S
  \/ Is("try") /\ ~Refused /\ Inner(S, E.n) /\ CanStart(S, E.n) /\ S' = Try(S, E.n)
  \/ Is("susp") /\ CanSusp(S, E.n) /\ S' = Susp(S, E.n)
  \/ Is("fin") /\ Leaf /\ S.st[E.n] = "pend" /\ E.n \notin S.fin /\ S' = [S EXCEPT !.fin = @ \cup {E.n}]
  \/ /\ Is("res") /\ Leaf
     /\ \/ S.st[E.n] = "pend" /\ E.n \in S.fin
        \/ CanStart(S, E.n) /\ S.t.rdy[E.n]
     /\ S' = Complete(S, E.n, [r |-> E.r, v |-> E.v])
  \/ /\ Is("res") /\ ~Leaf /\ Completable(S, E.n)
     /\ LET o == Outcome(S, E.n) IN E.r = o.r /\ E.i = o.i /\ E.v = o.v /\ E.outs = o.outs
     /\ S' = Return(S, E.n)
  \/ Is("intr") /\ CanIntr(S, E.n) /\ S' = Intr(S, E.n)
  \/ /\ Is("canc") /\ Leaf /\ S.st[E.n] = "pend"
     /\ \E d \in Cancs(S, E.n, E.t) : S' = Canc(S, E.n, d)
  \/ Is("cancel") /\ S' = CancelRoot(S, E.t)
  \/ Is("tx") /\ Leaf /\ S.st[E.n] = "pend" /\ S' = BeginTx(S, E.n)
  \/ Is("txthrow") /\ S.must = E.n /\ S' = [S EXCEPT !.must = 0]
  \/ Is("back") /\ (Refused \/ Quiescent(S)) /\ S' = Settle(S)
  \/ Is("end") /\ E.frames = 0 /\ E.mem = 0 /\ E.bad = 0 /\ UNCHANGED S

Next == Event /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars

Record == TLCSet(tid, IF l = 1 THEN 1 ELSE IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
Report == \A t \in DOMAIN Traces :
            IF TLCGet(t) = Len(Traces[t].ev) + 1 THEN TRUE
            ELSE PrintT("REJECT " \o ToJson([id |-> Traces[t].id, at |-> TLCGet(t)]))
=============================================================================
