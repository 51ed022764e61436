----------------------------- MODULE TimerTrace -----------------------------
(* Checks executions recorded by harness/timer.cpp against Timer. *)
EXTENDS Timer, TLC, Json, IOUtils
VARIABLES tid, l, ph
vars == <<S, tid, l, ph>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
P == Traces[tid].p
T == Traces[tid].ev
E == T[l]
Timers == P.kind = "t"
Init == tid \in 1..Len(Traces) /\ l = 1 /\ ph = "idle" /\ S = (IF Timers THEN InitT ELSE InitG)
Is(name) == l <= Len(T) /\ E.e = name
Eat == l' = l + 1 /\ UNCHANGED tid
To(s, p) == S' = s /\ ph' = p /\ Eat
Out(o) == E.o = o
Ran == \A i \in Pend(S) : S.ops[i].o # "now"

Common ==
  \/ ph = "idle" /\ Is("X") /\ E.i \in Pend(S) /\ To(Stop(S, {E.i}), "run")
  \/ ph = "idle" /\ Is("E") /\ To(IF P.fin = "s" THEN Stop(S, Pend(S)) ELSE S, "fin")
  \/ ph = "run" /\ Is("back") /\ (Timers => Ran) /\ To(IF Timers THEN Suspend(S) ELSE S, "idle")
  \/ ph = "fin" /\ Is("settled") /\ S.ops = None /\ To(S, "fin")
  \/ ph = "fin" /\ Is("end") /\ E.frames = 0 /\ E.mem = 0 /\ E.bad = 0 /\ To(S, "over")
Time ==
  \/ ph = "idle" /\
     \/ Is("new") /\ E.t \notin DOMAIN S.t /\ To(New(S, E.t, E.k, E.how, E.v), ph)
     \/ Is("pass") /\ To(Pass(S, E.v), ph)
     \/ Is("jump") /\ To(Jump(S, E.v), ph)
     \/ Is("sleep") /\ To(Sleep(S, E.i, E.k, E.how, E.v), "run")
     \/ Is("wait") /\ To(Wait(S, E.i, E.t), "run")
     \/ Is("reset") /\ To(Reset(S, E.t, E.how, E.v), ph)
     \/ Is("cancel") /\ To(Cancel(S, E.t), ph)
     \/ Is("gone") /\ To(Gone(S, E.t), ph)
     \/ Is("move") /\ To(Move(S, E.t, E.u), ph)
     \/ Is("assign") /\ To(Assign(S, E.t, E.u), ph)
     \/ Is("expired") /\ E.v \in Expired(S, E.t) /\ To(S, ph)
     \/ Is("expiry") /\ E.v = S.t[E.t].exp /\ To(S, ph)
     \/ Is("Q") /\ To(S, "Q")
  \/ Is("res") /\ E.i \in Pend(S) /\ E.n = 0 /\ To(Done(S, E.i), ph)
     /\ (ph = "run" => AtOnce(S, E.i)) /\ ph \in {"run", "Q", "fin"}
     /\ Told(S, E.i) # "" /\ Out(Told(S, E.i))
  \/ ph = "Q" /\ Is("back") /\ (\A i \in Pend(S) : Told(S, i) = "") /\ To(S, "idle")
Signal ==
  \/ ph = "idle" /\
     \/ Is("set") /\ E.s \notin DOMAIN S.reg
        /\ LET ns == {E.ns[j] : j \in DOMAIN E.ns} IN
           /\ Out(IF 0 \in ns THEN "err" ELSE "ok") /\ To(IF 0 \in ns THEN S ELSE NewSet(S, E.s, ns), ph)
     \/ Is("raise") /\ To(Raise(S, E.n), ph)
     \/ Is("wait") /\ \E n \in Choices(S, E.s) : To(WaitSig(S, E.i, E.s, n), "run")
     \/ Is("do") /\
        CASE E.c = "a" -> Out(IF E.n = 0 THEN "err" ELSE "ok") /\ To(Add(S, E.s, E.n), ph)
          [] E.c = "r" -> Out(IF E.n = 0 THEN "err" ELSE "ok") /\ To(Remove(S, E.s, E.n), ph)
          [] E.c = "C" -> Out("ok") /\ To(Clear(S, E.s), ph)
          [] E.c = "c" -> Out("ok") /\ To(Stop(S, Of(S, E.s)), ph)
          [] E.c = "D" -> Out("ok") /\ To(GoneSet(S, E.s), ph)
     \/ Is("Q") /\ To(Deliver(S), "Q")
  \/ Is("res") /\ ph \in {"run", "Q", "fin"} /\ E.i \in Pend(S)
     /\ LET p == S.ops[E.i] IN p.o # "" /\ Out(p.o) /\ E.n = (IF p.o = "ok" THEN p.n ELSE 0)
     /\ To(Done(S, E.i), ph)
  \/ ph = "Q" /\ Is("back") /\ (\A i \in Pend(S) : S.ops[i].o = "") /\ To(S, "idle")
Next == Common \/ (IF Timers THEN Time ELSE Signal)
Spec == Init /\ [][Next]_vars

Record == TLCSet(tid, IF l = 1 THEN 1 ELSE IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
Report == \A t \in DOMAIN Traces :
            IF TLCGet(t) = Len(Traces[t].ev) + 1 THEN TRUE
            ELSE PrintT("REJECT " \o ToJson([id |-> Traces[t].id, at |-> TLCGet(t)]))
=============================================================================
