------------------------------ MODULE ThreadMC ------------------------------
(* Exhaustive exploration of Thread: every body of up to MaxSteps steps, every history of up to MaxCmds commands of the
   owner and every interleaving of the two threads (with Eager: only those in which the thread is faster). *)
EXTENDS Thread, Json
CONSTANTS Bodies, MaxCmds, Eager, Emit
VARIABLES S, hist, nA, asked, last
vars == <<S, hist, nA, asked, last>>
view == <<S, Len(hist), nA, asked>>

St(k) == [k |-> k, a |-> 0]
G(a) == [k |-> "g", a |-> a]
Kinds == {St(k) : k \in {"y", "p", "s", "t", "r", "l"}} \cup {G(1)}
Up(k) == UNION {[1..j -> Kinds] : j \in 0..k}
Quick == Up(1) \cup {<<x, y>> : x \in {G(1), St("y"), St("p"), St("s")}, y \in {G(1), G(2), St("t"), St("d")}} \cup {<<St("d")>>}
Small == Up(1) \cup {<<G(1), G(2)>>, <<St("p"), G(1)>>, <<St("d")>>, <<G(1), St("t")>>, <<St("s"), G(1)>>}
Deep == Up(2) \cup {<<St("p"), G(1), St("t")>>, <<G(1), St("r"), G(2)>>, <<St("d"), St("s")>>, <<G(1), St("d")>>}

Aws == {n \in DOMAIN hist : hist[n].c = "a"}
Cmds == {[c |-> c] : c \in {"P", "W", "j", "d", "x", "q"}} \cup {[c |-> "c", t |-> "t"]}
        \cup {[c |-> "a", rv |-> b, f |-> "d"] : b \in BOOLEAN}
        \cup {[c |-> "C", j |-> n, t |-> "t"] : n \in Aws}
        \cup {[c |-> "O", k |-> k] : k \in {1, 2} \ S.open}
        \cup {[c |-> "S", k |-> Cardinality(DOMAIN S.ts) + 1, g |-> g] : g \in IF DOMAIN S.ts = {} THEN {0, 1} ELSE {}}
        \cup {[c |-> "Z", k |-> k, t |-> "t"] : k \in DOMAIN S.ts}

Init == S \in {InitS(b) : b \in Bodies} /\ hist = <<>> /\ nA = <<>> /\ asked = FALSE /\ last = None
Moves == IF Eager /\ T1(S) \cup KillStep(S) # {} THEN T1(S) \cup KillStep(S) ELSE Steps(S)
Inner == \E r \in Moves :
           /\ S' = r.s /\ last' = r.e /\ UNCHANGED hist
           /\ nA' = IF r.e.e = "A" THEN Put(nA, r.e.n, IF r.e.n \in DOMAIN nA THEN 2 ELSE 1) ELSE nA
           /\ asked' = (asked \/ r.e.e = "s" \/ S.own.c = "x")
Quiet == ~Eager \/ T1(S) \cup KillStep(S) = {}
Do(c) == /\ S' = Begin(S, c @@ [n |-> Len(hist) + 1]) /\ hist' = Append(hist, c) /\ last' = None /\ UNCHANGED <<nA, asked>>
Outer == \/ S.own.ph = "back" /\ S' = [S EXCEPT !.own = [c |-> "", ph |-> "idle"]] /\ last' = None /\ UNCHANGED <<hist, nA, asked>>
         \/ /\ S.own.ph = "idle" /\ Quiet /\ Len(hist) < MaxCmds
            /\ IF hist = <<>> THEN Do([c |-> "n"]) ELSE \E c \in Cmds : Do(c)
         \* the end: nothing can be left running
         \/ /\ S.own.ph = "idle" /\ S.os = "exit" /\ ~S.obj.th
            /\ S' = [S EXCEPT !.own = [c |-> "", ph |-> "end"], !.obj.st = FALSE, !.aw = [n \in DOMAIN @ |-> [@[n] EXCEPT !.st = "done"]]]
            /\ last' = None /\ UNCHANGED <<hist, nA, asked>>
Next == Inner \/ Outer
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
EmitGen == IF Emit /\ Len(hist') > Len(hist) /\ Len(hist') > 1
           THEN PrintT("GEN " \o ToJson([body |-> S.body, h |-> hist'])) ELSE TRUE

----------------------------------------------------------------------------
Stopped == S.os \in {"post", "unh", "fin", "exit"}
\* nobody waits for a thread that has ended without a resumption under way
Told == /\ S.os = "exit" => \A n \in DOMAIN S.aw : S.aw[n].st # "wait" /\ S.aw[n].st # "told"
        /\ \A n \in DOMAIN S.aw : S.aw[n].st = "posted" =>
             /\ S.aw[n].r = IF Threw(S) THEN Exc(S) ELSE "ok"
             /\ (\E j \in DOMAIN S.q0 : S.q0[j] = [k |-> "A", n |-> n]) \/ (S.own.ph = "A" /\ "j" \in DOMAIN S.own /\ S.own.j = n)
\* it is resumed once, after the body, with what the body ended with
Once == \A n \in DOMAIN nA : nA[n] = 1
After == last.e = "A" => IF last.r = "expired" THEN TRUE
                         ELSE /\ Stopped
                              /\ last.r = "ok" => S.b.st = "gone" \/ asked
                              /\ last.r \notin {"ok", "std:Invalid argument"} => S.b.exc > 0 /\ last.r = Exc(S)
\* what is joined has ended
Joined == /\ S.own.c = "j" /\ S.own.ph = "r" /\ S.own.r = "ok" => S.os = "exit"
          /\ last.e = "A" /\ S.aw[last.n].th => S.os = "exit"
          /\ S.own.c = "x" /\ S.own.ph = "back" => ~S.obj.has
\* the body runs on the thread only, and never after the thread has ended
Alone == last.e \in {"up", "l", "y", "Y", "g", "G", "p", "d", "s", "t", "S", "sg"} => last.w = 1 /\ ~Stopped
\* nothing is destroyed that somebody still uses
Owned == last.e = "gone" /\ Stopped => ~S.obj.st /\ Live(S) = {}
\* an exception somebody waits for is not unhandled
Heard == last.e = "unhandled" => Threw(S) /\ \A n \in DOMAIN S.aw : S.aw[n].r # Exc(S)
\* when nothing can go on, there is something to wait for: a gate, or what never ends
Shut(k) == k \notin S.open
Waits == \/ S.b.st = "wait" /\ (S.b.i = 0 \/ (I(S).k = "g" /\ Shut(I(S).a)))
         \/ S.det > 0
         \/ \E k \in DOMAIN S.ts : S.ts[k].st = "wait" /\ Shut(S.ts[k].g)
NoDeadlock == Steps(S) = {} /\ S.own.ph \notin {"idle", "back", "end"} => S.os = "run" /\ ~S.stop /\ Waits /\ ~(S.own.c = "x" /\ S.own.ph = "join")
\* nothing is left behind
Clean == S.own.ph = "end" /\ Steps(S) = {} => S.b.st = "gone"
=============================================================================
