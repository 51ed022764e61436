----------------------------- MODULE FileTrace -----------------------------
(* Checks executions recorded by harness/file.cpp against File. *)
EXTENDS File, TLC, Json, IOUtils
VARIABLES tid, l, ph
vars == <<S, tid, l, ph>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
P == Traces[tid].p
T == Traces[tid].ev
E == T[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ ph = "idle" /\ S = InitS
Is(name) == l <= Len(T) /\ E.e = name
Eat == l' = l + 1 /\ UNCHANGED tid
To(s, p) == S' = s /\ ph' = p /\ Eat
Ok(c) == E.o = (IF c THEN "ok" ELSE "err")
B == Data(E.i, E.n)

Fits(p, r, f) == r.o = p.o /\ r.n = Shown(p.o, f, p.n) /\ r.good /\ r.d = p.d
Res(served) == /\ Is("res") /\ E.i \in DOMAIN S.ops
               /\ LET s == IF served THEN Serve(S, E.i) ELSE S
                      p == s.ops[E.i]
                  IN /\ p.o # ""
                     /\ \/ Fits(p, E, P.form[E.i])
                        \/ p.any /\ E.o = "ok" /\ E.n = 0 /\ E.good /\ E.d = <<>>
                     /\ To(Done(s, E.i), ph)
\* "A" and "B", with nothing else around
All == /\ Is("all") /\ ph = "all"
       /\ LET q == T[l - 1]
              x == DoAll(S, IF q.c = "A" THEN "R" ELSE "W", q.h, q.off, Data(q.i, q.n), q.n).r
          IN /\ q.i = E.i
             /\ Fits(x, E, q.f)
             /\ To(DoAll(S, IF q.c = "A" THEN "R" ELSE "W", q.h, q.off, Data(q.i, q.n), q.n).s, "run")
Op == /\ Is("op") /\ E.h \in DOMAIN S.h
      /\ IF E.c \in {"A", "B"} THEN S.ops = None /\ To(S, "all") ELSE To(Start(S, E.i, E.c, E.h, E.off, E.n), "run")
OpenEv == /\ Is("open")
          /\ IF E.ctor
             THEN /\ E.h \notin DOMAIN S.h /\ Ok(CanOpen(S, E.f, E))
                  /\ To(IF E.o = "ok" THEN Open(New(S, E.h, E.t), E.h, E.f, E) ELSE S, ph)
             ELSE /\ E.h \in DOMAIN S.h /\ Ok(~IsOpen(S, E.h) /\ CanOpen(S, E.f, E))
                  /\ To(IF E.o = "ok" THEN Open(S, E.h, E.f, E) ELSE S, ph)
Dup == /\ Is("dup") /\ IsOpen(S, E.h2)
       /\ IF E.ctor THEN Ok(TRUE) /\ To(Refer(New(S, E.h, E.t), E.h, S.h[E.h2].d), ph)
          ELSE Ok(~IsOpen(S, E.h)) /\ To(IF E.o = "ok" THEN Refer(S, E.h, S.h[E.h2].d) ELSE S, ph)
DoEv ==
  /\ Is("do") /\ E.h \in DOMAIN S.h
  /\ CASE E.c = "s" -> /\ Ok(CanSeek(S, E.h, E.a, E.wh))
                       /\ IF E.o = "ok" THEN E.v = Target(S, E.h, E.a, E.wh) /\ To(Move(S, E.h, E.v), ph) ELSE To(S, ph)
       [] E.c = "z" -> Ok(CanResize(S, E.h)) /\ To(IF E.o = "ok" THEN Resize(S, E.h, E.a) ELSE S, ph)
       [] E.c = "Z" -> Ok(IsOpen(S, E.h)) /\ (E.o = "ok" /\ ~Fifo(S, E.h) => E.v = Len(Content(S, E.h))) /\ To(S, ph)
       [] E.c = "y" -> Ok(IsOpen(S, E.h) /\ ~Fifo(S, E.h)) /\ To(S, ph)
       [] E.c = "c" -> Ok(IsOpen(S, E.h)) /\ To(Stop(S, Of(S, E.h)), ph)
       [] E.c = "k" -> E.o = "ok" /\ To(Close(S, E.h), ph)
       [] E.c = "l" -> Ok(IsOpen(S, E.h)) /\ To(Close(S, E.h), ph)
       [] E.c = "i" -> E.o = (IF IsOpen(S, E.h) THEN "open" ELSE "closed") /\ To(S, ph)
       [] E.c = "D" -> E.o = "ok" /\ To(Delete(S, E.h), ph)
Next ==
  \/ ph = "idle" /\
     \/ Is("new") /\ To(New(S, E.h, E.t), ph)
     \/ OpenEv \/ Dup \/ DoEv \/ Op
     \/ Is("move") /\ To(Moved(S, E.h, E.h2), ph)
     \/ Is("X") /\ E.i \in DOMAIN S.ops /\ To(Stop(S, {E.i}), "run")
     \/ Is("Q") /\ To(S, "Q")
     \/ Is("E") /\ To(IF P.fin = "s" THEN Stop(S, DOMAIN S.ops) ELSE S, "fin")
  \/ All
  \/ ph \in {"run", "Q", "fin"} /\ Res(ph = "Q")
  \/ ph = "run" /\ Is("back") /\ To(S, "idle")
  \/ ph = "Q" /\ Is("back") /\ (\A i \in DOMAIN S.ops : ~Due(S, i)) /\ To(S, "idle")
  \/ ph = "fin" /\ Is("settled") /\ S.ops = None /\ To(S, "fin")
  \/ ph = "fin" /\ Is("end") /\ E.frames = 0 /\ E.mem = 0 /\ E.bad = 0 /\ E.fds = 0
                /\ E.f0 = S.fs[0] /\ E.f1 = S.fs[1] /\ To(S, "over")
Spec == Init /\ [][Next]_vars

Record == TLCSet(tid, IF l = 1 THEN 1 ELSE IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
Report == \A t \in DOMAIN Traces :
            IF TLCGet(t) = Len(Traces[t].ev) + 1 THEN TRUE
            ELSE PrintT("REJECT " \o ToJson([id |-> Traces[t].id, at |-> TLCGet(t)]))
=============================================================================
