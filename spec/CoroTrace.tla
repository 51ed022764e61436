----------------------------- MODULE CoroTrace -----------------------------
(* Checks executions recorded by harness/coro.cpp against Coro. *)
EXTENDS Coro, Json, IOUtils
VARIABLES S, tid, l
vars == <<S, tid, l>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tid].ev
E == T[l]
Cmds == Traces[tid].cmds

\* goes on with the next command as soon as the previous one is finished
Go(s, t) == LET n == Norm(s)
            IN IF Idle(n) /\ n.phase = "run"
               THEN Norm(IF n.n < Len(Traces[t].cmds) THEN Command(n, n.n + 1, Traces[t].cmds[n.n + 1]) ELSE Ending(n, Traces[t].ctxfirst))
               ELSE n

Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ S = Go(InitS(Traces[tid].prog, Traces[tid].nops, Traces[tid].hx, {Traces[tid].dev[i] : i \in DOMAIN Traces[tid].dev}), tid)

Settled(s) == s.fd = {} /\ s.spd = {}
Visible ==
  /\ S.out # <<>> /\ l <= Len(T)
  /\ E.e = Head(S.out).e /\ (E = Head(S.out) \/ E.e = "crash")
  /\ E.e \in {"ret", "dropped", "idle2", "closed", "end"} => Settled(S)
  /\ S' = Go([S EXCEPT !.out = Tail(@)], tid)
  /\ l' = l + 1
Release ==
  /\ l <= Len(T)
  /\ \/ E.e = "fd" /\ E.c \in S.fd \cup S.lk /\ S' = [S EXCEPT !.fd = @ \ {E.c}, !.lk = @ \ {E.c}]
     \/ /\ E.e = "leak" /\ E.c \in S.lk /\ "orphan_leak" \in S.dev
        /\ S' = [S EXCEPT !.lk = @ \ {E.c}, !.kf = @ \cup {"orphan_leak"}]
     \/ E.e = "spd" /\ E.v \in S.spd /\ S' = [S EXCEPT !.spd = @ \ {E.v}]
  /\ l' = l + 1
Choose ==
  /\ S.out = <<>> /\ Polling(S)
  /\ \E s \in PollSucc(S) : S' = Go(s, tid)
  /\ l' = l

Next == (Visible \/ Release \/ Choose) /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars

N == Len(Traces)
Record == /\ TLCSet(tid, IF l = 1 THEN 1 ELSE IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
          /\ IF l = 1 THEN TLCSet(N + tid, {"-"})
             ELSE IF l = Len(T) + 1 /\ TLCGet(N + tid) # {} THEN TLCSet(N + tid, S.kf) ELSE TRUE
Report == \A t \in DOMAIN Traces :
            IF TLCGet(t) # Len(Traces[t].ev) + 1 THEN PrintT("REJECT " \o ToJson([id |-> Traces[t].id, at |-> TLCGet(t)]))
            ELSE IF TLCGet(N + t) # {} THEN PrintT("KNOWN " \o ToJson([id |-> Traces[t].id, dev |-> TLCGet(N + t)]))
            ELSE TRUE
=============================================================================
