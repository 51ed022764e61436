----------------------------- MODULE ChannelMC -----------------------------
(* Exhaustive exploration of Channel within small constants.  Every transition is also printed *)
(* as the sequence of stimuli leading to it (GEN lines), which the driver replays.             *)
EXTENDS Channel, Json
CONSTANTS MaxOps, Limits, Selects, MaxFaults, Emit
VARIABLES hist, faults
vars == <<S, hist, faults>>
view == <<S, faults>>

Chans == DOMAIN (CHOOSE l \in Limits : TRUE)
W(c, v) == [k |-> "w", c |-> c, v |-> v]
R(c) == [k |-> "r", c |-> c, v |-> 0]
AltSets(o) ==
  {<<W(c, o)>> : c \in Chans} \cup {<<R(c)>> : c \in Chans}
  \cup (IF Selects THEN UNION {{<<x, y>> : x \in {R(c), W(c, o)}, y \in {R(d), W(d, 100 + o)}}
                               : <<c, d>> \in {p \in Chans \X Chans : p[1] # p[2]}}
        ELSE {})

Init == /\ S \in {InitS(l) : l \in Limits} /\ hist = <<>> /\ faults = 0

\* (alternatives whose value is irrelevant carry 0, so the number of written values is bounded by MaxOps)
Call == /\ Cardinality(DOMAIN S.op) < MaxOps
        /\ LET o == Cardinality(DOMAIN S.op) + 1 IN
           \E alts \in AltSets(o) :
             \E how \in (IF Len(alts) = 1 THEN {"p"} ELSE {"l", "r"}) :
               /\ S' \in Calls(S, o, how, alts)
               /\ hist' = Append(hist, [a |-> "S", o |-> o, how |-> how, alts |-> alts])
        /\ UNCHANGED faults
Return == \E o \in DOMAIN S.op : \E r \in {"ok", "aborted", "closed"} :
            /\ CanReturn(S, o, r) /\ S' = ReturnS(S, o, r)
            /\ hist' = Append(hist, [a |-> "P"])
            /\ UNCHANGED faults
Cancel == /\ faults < MaxFaults
          /\ \E o \in DOMAIN S.op : S.op[o].st # "ret" /\ S' = CancelS(S, o)
               /\ hist' = Append(hist, [a |-> "C", o |-> o])
          /\ faults' = faults + 1
Interrupt == /\ faults < MaxFaults
             /\ \E o \in DOMAIN S.op : S.op[o].st # "ret" /\ S.op[o].how = "p"
                  /\ S' = (LET s1 == CancelS(S, o) IN
                           IF s1 = S THEN S ELSE ReturnS(s1, o, "aborted"))
                  /\ hist' = Append(hist, [a |-> "I", o |-> o])
             /\ faults' = faults + 1
Close == /\ faults < MaxFaults
         /\ \E c \in Chans : ~S.closed[c] /\ S' = CloseS(S, c)
              /\ hist' = Append(hist, [a |-> "X", c |-> c])
         /\ faults' = faults + 1
Next == Call \/ Return \/ Cancel \/ Interrupt \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Return)

EmitGen == IF Emit THEN PrintT("GEN " \o ToJson([lim |-> S.lim, h |-> hist'])) ELSE TRUE

\* liveness: a decided operation returns
Returns == \A o \in 1..MaxOps : [](o \in DOMAIN S.op /\ S.op[o].st = "done" => <>(S.op[o].st = "ret"))

LimA == {<<0>>, <<1>>, <<2>>}
LimB == {<<0, 0>>, <<0, 1>>, <<1, 1>>}
=============================================================================
