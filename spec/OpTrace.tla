------------------------------ MODULE OpTrace ------------------------------
(* Checks executions recorded by harness/op.cpp against Op. *)
EXTENDS Op, Json, IOUtils
VARIABLES tid, l, ph
vars == <<S, tid, l, ph>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tid].ev
E == T[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ S = InitS(Traces[tid].p) /\ ph = ""

Is(name) == l <= Len(T) /\ E.e = name
Eat == l' = l + 1 /\ UNCHANGED tid

System == LET r == Step(S) IN
          /\ S' = r.s /\ UNCHANGED <<tid, ph>>
          /\ IF r.e = None THEN UNCHANGED l ELSE l <= Len(T) /\ E = r.e /\ l' = l + 1
To(s, p) == S' = s /\ ph' = p /\ Eat
Env ==
  \/ Is("go") /\ ph = "" /\ To(Go(S), "go")
  \/ Is("threw") /\ ph = "go" /\ S.thr = E.n /\ E.n # 0 /\ To([S EXCEPT !.thr = 0], "go")
  \/ Is("back") /\ ph = "go" /\ S.thr = 0 /\ To(S, "idle")
  \/ ph = "idle" /\
     \/ Is("C") /\ Held(S, E.n) /\ To(Cont(S, E.n), "go")
     \/ Is("D") /\ Held(S, E.n) /\ To(DropHeld(S, E.n), "go")
     \/ Is("X") /\ S.live > 0 /\ To(Cancel(S, E.t), "go")
     \/ Is("P") /\ To(Poll(S), "go")
     \/ Is("E") /\ To(S, "end")
  \/ Is("drop") /\ ph = "end" /\ Held(S, E.n) /\ To(Drop(S, E.n), "end")
  \/ Is("X") /\ ph = "end" /\ (\A n \in DOMAIN S.st : ~Held(S, n)) /\ To(Flush(S), "flush")
  \/ Is("back") /\ ph = "flush" /\ To(S, "over")
  \/ Is("end") /\ ph = "over" /\ S.live = 0 /\ E.frames = 0 /\ E.mem = 0 /\ E.bad = 0 /\ To(S, "over")
Next == IF Busy(S) THEN System ELSE Env
Spec == Init /\ [][Next]_vars

Record == TLCSet(tid, IF l = 1 THEN 1 ELSE IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
Report == \A t \in DOMAIN Traces :
            IF TLCGet(t) = Len(Traces[t].ev) + 1 THEN TRUE
            ELSE PrintT("REJECT " \o ToJson([id |-> Traces[t].id, at |-> TLCGet(t)]))
=============================================================================
