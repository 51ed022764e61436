---------------------------- MODULE ThreadTrace ----------------------------
(* Checks executions recorded by harness/thread.cpp against Thread. *)
EXTENDS Thread, Json, IOUtils
VARIABLES S, tid, l
vars == <<S, tid, l>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tid].ev
E == T[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ S = InitS(Traces[tid].p.body)
Is(name) == l <= Len(T) /\ E.e = name
Eat == l' = l + 1 /\ UNCHANGED tid
Cmd == Traces[tid].p.cmds[E.k]

Inner == \E r \in Steps(S) :
           /\ S' = r.s /\ UNCHANGED tid
           /\ IF r.e = None THEN UNCHANGED l ELSE l <= Len(T) /\ E = r.e /\ l' = l + 1
Over(s) == s.os \in {"none", "exit"}
Dev(d) == \E i \in DOMAIN Traces[tid].dev : Traces[tid].dev[i] = d
Outer ==
  \/ Is("call") /\ S.own.ph = "idle" /\ S' = Begin(S, Cmd @@ [n |-> E.k]) /\ Eat
  \/ Is("back") /\ S.own.ph = "back" /\ S' = [S EXCEPT !.own = [c |-> "", ph |-> "idle"]] /\ Eat
  \/ Is("flush") /\ S.own.ph = "idle" /\ Over(S) /\ Eat
       \* the contexts, and what awaits or owns the thread, are destroyed
       /\ S' = [S EXCEPT !.own = [c |-> "", ph |-> "end"], !.obj.st = FALSE, !.aw = [n \in DOMAIN @ |-> [@[n] EXCEPT !.st = "done"]]]
  \/ /\ Is("end") /\ S.own.ph = "end" /\ S.b.st \in {"none", "gone"} /\ Eat /\ UNCHANGED S
     /\ E.frames = 0 /\ E.mem = 0 /\ E.bad = 0 /\ E.news = 0
     /\ E.foreign => (Dev("spawn_memory") /\ DOMAIN S.ts # {} /\ TLCSet(100000 + tid, TRUE))
  \* nothing can run: right only if neither has a step
  \/ /\ Is("stuck") /\ Steps(S) = {} /\ S.own.ph # "back" /\ (S.own.ph = "idle" => ~Over(S)) /\ l = Len(T) /\ Eat /\ UNCHANGED S
Next == Inner \/ Outer
Spec == Init /\ [][Next]_vars

Record == TLCSet(tid, IF l = 1 THEN 1 ELSE IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
          /\ (l = 1 => TLCSet(100000 + tid, FALSE))
Report == \A t \in DOMAIN Traces :
            IF TLCGet(t) = Len(Traces[t].ev) + 1
            THEN IF TLCGet(100000 + t) THEN PrintT("KNOWN " \o ToJson([id |-> Traces[t].id, dev |-> <<"spawn_memory">>])) ELSE TRUE
            ELSE PrintT("REJECT " \o ToJson([id |-> Traces[t].id, at |-> TLCGet(t)]))
=============================================================================
