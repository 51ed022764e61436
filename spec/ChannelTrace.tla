---------------------------- MODULE ChannelTrace ----------------------------
(* Checks executions recorded by harness/channel.cpp against Channel.  One run checks many traces:
   tid selects the trace, l is the next event.  A trace is accepted when every event is explained. *)
EXTENDS Channel, Json, IOUtils
VARIABLES tid, l, intr
vars == <<S, tid, l, intr>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tid].ev
E == T[l]

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ intr = 0
        /\ S = InitS(Traces[tid].lim)

Is(name) == l <= Len(T) /\ E.e = name
Alts == [i \in DOMAIN E.k |-> [k |-> E.k[i], c |-> E.c[i], v |-> E.vs[i]]]
How == IF E.how = "v" THEN "l" ELSE E.how

\* plain operations that need not wait return at once
Prompt == \A o \in DOMAIN S.op : ~(S.op[o].st = "done" /\ S.op[o].how = "p" /\ ~S.op[o].posted)
Quiet == \A o \in DOMAIN S.op : S.op[o].st # "done" /\ (S.op[o].st = "wait" => S.op[o].may = {})

Event ==
  \/ Is("call") /\ E.o \notin DOMAIN S.op /\ S' \in Calls(S, E.o, How, Alts) /\ UNCHANGED intr
  \/ /\ Is("ret") /\ E.o \in DOMAIN S.op /\ CanReturn(S, E.o, E.r)
     /\ IF E.r = "ok" THEN /\ E.i + 1 = S.op[E.o].i /\ E.v = S.op[E.o].v
                           /\ \A j \in DOMAIN E.kept : j # E.i + 1 => E.kept[j] = 1
        ELSE \A j \in DOMAIN E.kept : E.kept[j] = 1
     /\ S' = ReturnS(S, E.o, E.r)
     /\ intr' = IF intr = E.o THEN 0 ELSE intr
  \/ Is("back") /\ Prompt /\ UNCHANGED <<S, intr>>
  \/ Is("cancel") /\ S' = CancelS(S, E.o) /\ UNCHANGED intr
  \/ /\ Is("intr") /\ S' = CancelS(S, E.o)
     /\ intr' = IF S' # S THEN E.o ELSE 0
  \/ Is("intrd") /\ intr = 0 /\ UNCHANGED <<S, intr>>
  \/ Is("close") /\ S' = CloseS(S, E.c) /\ UNCHANGED intr
  \/ Is("open") /\ E.v = ~S.closed[E.c] /\ UNCHANGED <<S, intr>>
  \/ Is("quiet") /\ Quiet /\ UNCHANGED <<S, intr>>
  \/ Is("end") /\ E.frames = 0 /\ E.mem = 0 /\ E.bad = 0 /\ UNCHANGED <<S, intr>>

\* what was recorded must also satisfy the properties (values of void channels are not distinct)
TraceInv == Capacity /\ NoLostWakeup /\ ClosedQueues /\ Conservation

Next == Event /\ TraceInv' /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars

Record == TLCSet(tid, IF l = 1 THEN 1 ELSE IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
Report == \A t \in DOMAIN Traces :
            IF TLCGet(t) = Len(Traces[t].ev) + 1 THEN TRUE
            ELSE PrintT("REJECT " \o ToJson([id |-> Traces[t].id, at |-> TLCGet(t)]))
=============================================================================
