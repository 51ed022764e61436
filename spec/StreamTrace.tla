---------------------------- MODULE StreamTrace ----------------------------
(* Checks executions recorded by harness/stream.cpp against Stream. *)
EXTENDS Stream, TLC, Json, IOUtils
VARIABLES tid, l, ph
vars == <<S, tid, l, ph>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
P == Traces[tid].p
T == Traces[tid].ev
E == T[l]
Opts == P.kind = "o"
Init == tid \in 1..Len(Traces) /\ l = 1 /\ ph = "" /\ S = (IF Opts THEN InitO(P.tcp) ELSE InitS(P.kind))
Is(name) == l <= Len(T) /\ E.e = name
Eat == l' = l + 1 /\ UNCHANGED tid
To(s, p) == S' = s /\ ph' = p /\ Eat

Res == Is("res") /\ ResOk(S, E.i, E.o, E.n, E.got, E.pk) /\ To(Done(S, E.i, E.o, E.n, E.got), ph)
Run ==
  \/ Is("made") /\ ph = "" /\ E.ok = ~P.none /\ ~E.threw /\ To(S, "idle")
  \/ ph \in {"run", "Q", "fin"} /\ Res
  \/ ph = "idle" /\
     \/ Is("op") /\ S.there[E.en] /\ To(Start(S, E.i, E.c, E.en, E.n, E.f, E.w, E.pk), "run")
     \/ Is("X") /\ E.i \in Pend(S) /\ To(Stop(S, E.i, TRUE), "run")
     \/ Is("Q") /\ To(S, "Q")
     \/ Is("do") /\ DoOk(S, E) /\ To(Do(S, E), "idle")
     \/ Is("E") /\ To(IF P.fin = "s" THEN Finish(S) ELSE S, "fin")
  \/ ph = "run" /\ Is("back") /\ To(S, "idle")
  \/ ph = "Q" /\ Is("back") /\ (\A i \in Pend(S) : ~Due(S, i)) /\ To(S, "idle")
  \/ ph = "fin" /\ Is("settled") /\ Pend(S) = {} /\ To(S, "fin")
  \/ ph = "fin" /\ Is("end") /\ E.frames = 0 /\ E.mem = 0 /\ E.bad = 0 /\ E.fds = 0 /\ To(S, "over")
Opt ==
  \/ Is("open") /\ E.o = (IF S.on THEN "err" ELSE "ok") /\ To([S EXCEPT !.on = TRUE], "")
  \/ Is("close") /\ E.o = "ok" /\ To(InitO(S.tcp), "")
  \/ Is("set") /\ SetOk(S, E) /\ (E.o = "ok" => S.on) /\ To(Set(S, E), "")
  \/ Is("get") /\ GetOk(S, E) /\ To(Get(S, E), "")
Next == IF Opts THEN Opt ELSE Run
Spec == Init /\ [][Next]_vars

Record == TLCSet(tid, IF l = 1 THEN 1 ELSE IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
Report == \A t \in DOMAIN Traces :
            IF TLCGet(t) = Len(Traces[t].ev) + 1 THEN TRUE
            ELSE PrintT("REJECT " \o ToJson([id |-> Traces[t].id, at |-> TLCGet(t)]))
=============================================================================
