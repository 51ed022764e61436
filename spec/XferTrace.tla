----------------------------- MODULE XferTrace -----------------------------
(* Checks executions recorded by harness/xfer.cpp against Xfer.  When a step is taken, and when the awaiter is   *)
(* told, is up to the implementation, as long as it has happened once nothing is left to run.                     *)
EXTENDS Xfer, TLC, Json, IOUtils
VARIABLES tid, l, ph
vars == <<S, tid, l, ph>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tid].ev
E == T[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ S = InitS(Traces[tid].p) /\ ph = ""
Is(name) == l <= Len(T) /\ E.e = name
Eat == l' = l + 1 /\ UNCHANGED tid
To(s, p) == S' = s /\ ph' = p /\ Eat
Plain == S.p.kind \in {"m", "c"}

Inner ==
  \/ S.st = "run" /\ Is("step") /\ E = StepEv(S) /\ To(Step(S), ph)
  \/ ph = "Q" /\ Posted(S) /\ S' = Done(S) /\ UNCHANGED <<tid, l, ph>>
  \/ S.st = "fin" /\ Is("res") /\ E = ResEv(S) /\ To(Told(S), ph)
Env ==
  \/ ph = "" /\
     \/ Is("go") /\ S.st = "idle" /\ To(Go(S), "go")
     \/ Is("C") /\ Held(S) /\ To(Done(S), "go")
     \/ Is("X") /\ S.st \in {"run", "out", "fin"} /\ To(Cancel(S), "go")
     \/ Is("Q") /\ To(S, "Q")
     \/ Is("data") /\ E.n = S.mv /\ To(S, "end")
     \/ Is("back") /\ To(S, "")       \* a command that did not apply
  \/ ph = "go" /\ Is("back") /\ To(S, "")
  \/ ph = "Q" /\ Is("back") /\ S.st \in {"idle", "out", "told"} /\ ~Posted(S) /\ To(S, "")
  \/ ph = "end" /\ Is("end") /\ E.frames = 0 /\ E.mem = 0 /\ E.bad = 0 /\ To(S, "over")
\* looking at a sequence, in every way
Look == \/ Is("A") /\ To(Drop(S, E.n), "")
        \/ Is("Y") /\ To(S, "")
        \/ \E i \in DOMAIN Looks : /\ ph = IF i = 1 THEN "" ELSE Looks[i - 1]
                                   /\ Is("obs") /\ E = Obs(S, Looks[i])
                                   /\ To(S, IF i = Len(Looks) THEN "" ELSE Looks[i])
Next == IF Plain THEN Look ELSE Inner \/ Env
Spec == Init /\ [][Next]_vars

Record == TLCSet(tid, IF l = 1 THEN 1 ELSE IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
Report == \A t \in DOMAIN Traces :
            IF TLCGet(t) = Len(Traces[t].ev) + 1 THEN TRUE
            ELSE PrintT("REJECT " \o ToJson([id |-> Traces[t].id, at |-> TLCGet(t)]))
=============================================================================
