------------------------------- MODULE FileMC -------------------------------
(* Every history of up to MaxCmds commands on up to two objects.  Beside the state, what was written where in the *)
(* course of it: what a file contains can be said from that alone.                                                *)
EXTENDS File, TLC, Json
CONSTANTS MaxCmds, MaxOps, FilesMC, Types, Emit
VARIABLES hist, ph, nops, log, last
vars == <<S, hist, ph, nops, log, last>>
view == <<S, Len(hist), ph, nops, log, last>>

Hs == {1, 2}
NoRes == [o |-> "", c |-> "", f |-> 0, at |-> 0, n |-> 0, d |-> <<>>, told |-> FALSE, h |-> 0]
Init == S = InitS /\ hist = <<>> /\ ph = "idle" /\ nops = 0 /\ log = <<>> /\ last = NoRes
Cmd(s, h) == S' = s /\ hist' = Append(hist, h) /\ ph' = "idle" /\ UNCHANGED nops
Quiet == last' = NoRes /\ UNCHANGED log
Flags == {[m |-> "r", app |-> FALSE, cr |-> FALSE, ex |-> FALSE, tr |-> FALSE],
          [m |-> "b", app |-> FALSE, cr |-> TRUE, ex |-> FALSE, tr |-> FALSE],
          [m |-> "w", app |-> TRUE, cr |-> TRUE, ex |-> TRUE, tr |-> FALSE],
          [m |-> "b", app |-> TRUE, cr |-> FALSE, ex |-> FALSE, tr |-> FALSE],
          [m |-> "b", app |-> FALSE, cr |-> TRUE, ex |-> FALSE, tr |-> TRUE]}
FifoFlags == {[m |-> "b", app |-> FALSE, cr |-> FALSE, ex |-> FALSE, tr |-> FALSE]}
OpenCmd(h, t, f, fl) ==
  LET ok == CanOpen(S, f, fl) /\ (h \notin DOMAIN S.h \/ ~IsOpen(S, h))
      s == IF h \in DOMAIN S.h THEN S ELSE New(S, h, t) IN
  /\ Cmd(IF ok THEN Open(s, h, f, fl) ELSE s,
         [c |-> "P", h |-> h, t |-> t, f |-> f, m |-> fl.m, app |-> fl.app, cr |-> fl.cr, ex |-> fl.ex, tr |-> fl.tr, ok |-> ok])
  /\ last' = NoRes
  /\ log' = IF ok /\ f # 2 /\ (S.fs[f] = Absent \/ fl.tr) THEN Append(log, [f |-> f, cut |-> 0, at |-> 0, d |-> <<>>]) ELSE log
\* a file descriptor is at hand for reading by somebody else
FifoWaits == \E i \in DOMAIN S.ops : S.ops[i].o = ""
OpCmd(h, c, off, n) ==
  LET i == nops + 1
      b == Data(i, n)
      x == IF c \in {"A", "B"} THEN DoAll(S, IF c = "A" THEN "R" ELSE "W", h, off, b, n) ELSE Do(S, c, h, off, b, n)
      rd == c \in {"R", "A"}
      at == IF ~IsOpen(S, h) THEN 0 ELSE IF ~rd /\ D(S, h).app THEN Len(Content(S, h)) ELSE IF S.h[h].t = "r" THEN off ELSE D(S, h).pos
  IN /\ S' = IF c \in {"A", "B"} THEN x.s ELSE Start(S, i, c, h, off, n)
     /\ hist' = Append(hist, [c |-> c, h |-> h, off |-> off, n |-> n, i |-> i])
     /\ ph' = "idle" /\ nops' = i
     /\ last' = IF Fifo(S, h) THEN NoRes
                ELSE [o |-> x.r.o, c |-> c, f |-> IF IsOpen(S, h) THEN D(S, h).f ELSE 3, at |-> at, n |-> n, d |-> x.r.d, told |-> FALSE, h |-> h]
     /\ log' = IF ~rd /\ x.r.o = "ok" /\ n > 0 /\ ~Fifo(S, h) THEN Append(log, [f |-> D(S, h).f, cut |-> 0 - 1, at |-> at, d |-> b]) ELSE log
Env ==
  /\ ph = "idle" /\ Len(hist) < MaxCmds
  /\ \/ \E h \in Hs, t \in Types, f \in FilesMC : /\ (h = 2 => 1 \in DOMAIN S.h) /\ (h \in DOMAIN S.h => t = S.h[h].t) /\ ~(f = 2 /\ t = "r")
                                                /\ \E fl \in IF f = 2 THEN FifoFlags ELSE Flags : OpenCmd(h, t, f, fl)
     \/ /\ 1 \in DOMAIN S.h /\ IsOpen(S, 1) /\ 2 \notin DOMAIN S.h /\ Quiet
        /\ \E t \in Types : ~(Fifo(S, 1) /\ t = "r") /\ Cmd(Refer(New(S, 2, t), 2, S.h[1].d), [c |-> "u", h |-> 2, t |-> t, h2 |-> 1])
     \/ \E h \in DOMAIN S.h :
          \/ /\ nops < MaxOps
             /\ \E c \in {"R", "W"}, n \in {1, 2}, off \in IF S.h[h].t = "r" THEN {0, 2, 4} ELSE {0} :
                  ~(Fifo(S, h) /\ c = "R" /\ FifoWaits) /\ OpCmd(h, c, off, n)
          \/ /\ nops < MaxOps /\ S.ops = None /\ ~Fifo(S, h)
             /\ \E c \in {"A", "B"}, off \in IF S.h[h].t = "r" THEN {1} ELSE {0} : OpCmd(h, c, off, 3)
          \/ /\ S.h[h].t = "s" /\ IsOpen(S, h) /\ Quiet
             /\ \E w \in {<<4, "S">>, <<0 - 1, "S">>, <<1, "C">>, <<0 - 1, "C">>, <<0, "E">>, <<0 - 2, "E">>} :
                  Cmd(IF CanSeek(S, h, w[1], w[2]) THEN Move(S, h, Target(S, h, w[1], w[2])) ELSE S, [c |-> "s", h |-> h, a |-> w[1], wh |-> w[2]])
          \/ \E n \in {1, 5} : IsOpen(S, h) /\ Cmd(IF CanResize(S, h) THEN Resize(S, h, n) ELSE S, [c |-> "z", h |-> h, n |-> n])
               /\ last' = NoRes /\ log' = IF CanResize(S, h) THEN Append(log, [f |-> D(S, h).f, cut |-> n, at |-> 0, d |-> <<>>]) ELSE log
          \/ IsOpen(S, h) /\ Quiet /\ Cmd(Close(S, h), [c |-> "k", h |-> h])
          \/ FifoWaits /\ Quiet /\ Cmd(Stop(S, Of(S, h)), [c |-> "c", h |-> h])
     \/ \E i \in DOMAIN S.ops : S.ops[i].o = "" /\ Quiet /\ Cmd(Stop(S, {i}), [c |-> "X", i |-> i])
     \/ S.ops # None /\ S' = S /\ hist' = Append(hist, [c |-> "Q"]) /\ ph' = "Q" /\ Quiet /\ UNCHANGED nops
Result == /\ ph = "Q" /\ \E i \in DOMAIN S.ops : /\ Due(S, i)
                                                 /\ last' = [NoRes EXCEPT !.o = S.ops[i].o]
                                                 /\ S' = Done(Serve(S, i), i)
          /\ UNCHANGED <<hist, ph, nops, log>>
Back == ph = "Q" /\ (\A i \in DOMAIN S.ops : ~Due(S, i)) /\ ph' = "idle" /\ last' = NoRes /\ UNCHANGED <<S, hist, nops, log>>
Next == Env \/ Result \/ Back
Spec == Init /\ [][Next]_vars
EmitGen == IF Emit /\ Len(hist') > Len(hist) /\ Len(hist') > 1 THEN PrintT("GEN " \o ToJson([h |-> hist'])) ELSE TRUE

----------------------------------------------------------------------------
Cuts == {j \in DOMAIN log : log[j].cut >= 0}
\* byte p of file f: of the last write to it, unless it was cut off after that
Last(f, p) == LET W == {j \in DOMAIN log : log[j].f = f /\ log[j].cut < 0 /\ p > log[j].at /\ p <= log[j].at + Len(log[j].d)}
                  C == {j \in Cuts : log[j].f = f /\ log[j].cut < p}
                  j == IF W = {} THEN 0 ELSE CHOOSE x \in W : \A y \in W : y <= x
                  k == IF C = {} THEN 0 ELSE CHOOSE x \in C : \A y \in C : y <= x
              IN IF k > j THEN 0 ELSE IF j > 0 THEN log[j].d[p - log[j].at] ELSE IF k = 0 /\ f = 0 /\ p <= 3 THEN First[p] ELSE 0
Size(f, j) == LET RECURSIVE Sz(_)
                  Sz(k) == IF k = 0 THEN (IF f = 0 THEN 3 ELSE 0)
                           ELSE IF log[k].f # f THEN Sz(k - 1)
                           ELSE IF log[k].cut >= 0 THEN log[k].cut ELSE Max(Sz(k - 1), log[k].at + Len(log[k].d))
              IN Sz(j)
\* a file contains what was written last
Contents == \A f \in {0, 1} : S.fs[f] # Absent => /\ Len(S.fs[f]) = Size(f, Len(log))
                                                  /\ \A p \in DOMAIN S.fs[f] : S.fs[f][p] = Last(f, p)
\* a read returns what is there, where it is
Read == last.c \in {"R", "A"} /\ last.o \in {"ok", "eof"} /\ last.f < 2 =>
          /\ \A j \in DOMAIN last.d : last.d[j] = Last(last.f, last.at + j)
          /\ last.at < Len(S.fs[last.f]) => Len(last.d) = Min(last.n, Len(S.fs[last.f]) - last.at)
\* and the end is only met at the end
AtEnd == last.c \in {"R", "A"} /\ last.o = "eof" => last.at + Len(last.d) >= Len(S.fs[last.f])
\* a stream goes on where it is
GoesOn == last.c # "" /\ last.f < 2 /\ last.o = "ok" => D(S, last.h).pos = last.at + last.n \/ (last.c = "R" /\ D(S, last.h).pos = last.at + Len(last.d))
\* nothing is written through what is open for reading only; nothing else is lost
ReadOnly == last.c \in {"W", "B"} /\ last.f < 2 => (last.o = "ok") = (D(S, last.h).w)
Positions == \A j \in DOMAIN S.d : S.d[j].pos >= 0
\* only what waits for a fifo waits
Idle == ph = "idle" /\ hist # <<>> /\ hist[Len(hist)].c = "Q" => \A i \in DOMAIN S.ops : S.ops[i].o = "" /\ S.ops[i].c = "R" /\ S.fs[2] = <<>>
=============================================================================
