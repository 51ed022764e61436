------------------------------- MODULE Thread -------------------------------
(* A thread coroutine and the owner of its handle.  Two actors take atomic steps: T1, the thread, runs the loop of its
   context; T0, the owner, executes commands and runs a context of its own.  Every step is a record [s, e]: the state it
   leads to and the event it shows (None if none).  Bodies are sequences of steps
     l  log   y post to itself   g wait for gate a   p start a promise that waits   d the same, detached
     s  stop the own context   r reset the cancellation state   t throw
   and the coroutine catches what its awaits throw. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

None == [e |-> ""]
Ev(w, name) == [e |-> name, w |-> w]
InitS(body) ==
  [ body |-> body,
    os |-> "none",         \* none, new, run, left (the loop), post, unh, fin (the others after done), exit
    stop |-> FALSE,        \* the context was stopped
    q |-> <<>>,            \* what was posted to the context of the thread
    cur |-> [k |-> ""],    \* the handler that runs, unless it is the body
    b |-> [st |-> "none", i |-> 0, comp |-> "", c |-> FALSE, exc |-> 0],
    hold |-> 0, det |-> 0, \* promises and detached coroutines that wait
    open |-> {},
    ts |-> <<>>,           \* spawned tasks
    obj |-> [has |-> FALSE, st |-> FALSE, th |-> FALSE],
    aw |-> <<>>,           \* the coroutines awaiting the thread, by the number of the command
    q0 |-> <<>>,           \* what was posted to the context of the owner
    own |-> [c |-> "", ph |-> "idle"] ]

Put(f, k, v) == (k :> v) @@ f
Push(S, x) == [S EXCEPT !.q = Append(@, x)]
Push0(S, x) == [S EXCEPT !.q0 = Append(@, x)]
Done(S) == S.os \in {"fin", "post", "unh", "exit"}
Pending(S) == {k \in DOMAIN S.ts : S.ts[k].st \in {"posted", "wait", "push", "run"}}
Live(S) == {n \in DOMAIN S.aw : S.aw[n].st \in {"wait", "told", "posted"}}
Step1(s, e) == [s |-> s, e |-> e]
ToB(S, st) == [S EXCEPT !.b.st = st]

----------------------------------------------------------------------------
(* the thread *)
I(S) == S.body[S.b.i]
Next1(S) == [S EXCEPT !.b.i = @ + 1]

BodyStep(S) ==
  LET n == S.b.i IN
  CASE S.b.st = "begin" -> {Step1([ToB(S, "run") EXCEPT !.b.i = 1], Ev(1, "up") @@ [ex |-> TRUE, res |-> TRUE])}
    [] S.b.st = "run" /\ n > Len(S.body) -> {Step1(ToB(S, "end"), Ev(1, "over"))}
    [] S.b.st = "run" /\ n <= Len(S.body) ->
         LET k == I(S).k IN
         (CASE k = "l" -> {Step1(Next1(S), Ev(1, "l") @@ [n |-> n])}
           [] k = "y" -> {Step1(ToB(S, IF S.b.c THEN "cold" ELSE "pushy"), Ev(1, "y") @@ [n |-> n])}
           [] k = "g" -> IF S.b.c THEN {Step1(Next1(S), Ev(1, "G") @@ [n |-> n, r |-> "aborted"])}
                         ELSE {Step1(IF I(S).a \in S.open THEN [ToB(S, "push") EXCEPT !.b.comp = "ok"]
                                     ELSE [ToB(S, "wait") EXCEPT !.b.comp = ""], Ev(1, "g") @@ [n |-> n])}
           [] k = "p" -> {Step1(ToB(S, "hold"), Ev(1, "hold") @@ [n |-> 0])}
           [] k = "d" -> {Step1(ToB(S, "det"), Ev(1, "hold") @@ [n |-> 0])}
           [] k = "s" -> {Step1([Next1(S) EXCEPT !.stop = TRUE], Ev(1, "s") @@ [n |-> n])}
           [] k = "r" -> {Step1([Next1(S) EXCEPT !.b.c = FALSE], Ev(1, "r") @@ [n |-> n])}
           [] k = "t" -> {Step1([ToB(S, "end") EXCEPT !.b.exc = n], Ev(1, "t") @@ [n |-> n])})
    [] S.b.st = "cold" -> {Step1(Next1(ToB(S, "run")), Ev(1, "Y") @@ [n |-> n, r |-> "aborted"])}
    [] S.b.st = "pushy" -> {Step1(Push(ToB(S, "wait"), [k |-> "res"]), None)}
    [] S.b.st = "push" -> {Step1(Push(ToB(S, "wait"), [k |-> "res"]), None)}
    [] S.b.st = "hold" -> {Step1([Next1(ToB(S, "run")) EXCEPT !.hold = @ + 1], Ev(1, "p") @@ [n |-> n])}
    [] S.b.st = "det" -> {Step1([Next1(ToB(S, "run")) EXCEPT !.det = @ + 1], Ev(1, "d") @@ [n |-> n])}
    [] S.b.st = "res" -> {Step1(Next1(ToB(S, "run")), IF I(S).k = "y" THEN Ev(1, "Y") @@ [n |-> n, r |-> "ok"]
                                                      ELSE Ev(1, "G") @@ [n |-> n, r |-> S.b.comp])}
    \* the end of the body: the promises are cancelled and dropped, then everything in the frame, then the frame
    [] S.b.st = "end" /\ S.hold > 0 ->
         {Step1(Push([S EXCEPT !.hold = @ - 1], [k |-> "free"]), Ev(1, "x") @@ [f |-> "hold", n |-> 0, t |-> "a"])}
    [] S.b.st = "end" /\ S.hold = 0 -> {Step1(ToB(S, "param"), Ev(1, "gone") @@ [n |-> "local"])}
    [] S.b.st = "param" -> {Step1(ToB(S, "gone"), Ev(1, "gone") @@ [n |-> "param"])}

InBody(S) == S.b.st \in {"begin", "run", "cold", "pushy", "push", "hold", "det", "res", "end", "param"}

\* handlers that are not the body
Finished(S, k, r) == [S EXCEPT !.ts[k].st = "done", !.ts[k].r = r, !.cur = [k |-> "h", n |-> k]]
CurStep(S) ==
  LET c == S.cur
      idle == [S EXCEPT !.cur = [k |-> ""]] IN
  CASE c.k = "x" /\ S.b.comp # "" -> {Step1(idle, None)}     \* somebody else completed it
    [] c.k = "x" -> {Step1([idle EXCEPT !.b.comp = "aborted", !.cur = [k |-> "xp"]],
                           Ev(1, "x") @@ [f |-> "g", n |-> S.b.i, t |-> c.t])}
    [] c.k = "xp" -> {Step1(Push(idle, [k |-> "res"]), None)}
    [] c.k = "sx" /\ S.ts[c.n].r # "" -> {Step1(idle, None)}
    [] c.k = "sx" -> {Step1([idle EXCEPT !.ts[c.n].r = "aborted", !.ts[c.n].st = "push", !.cur = [k |-> "sxp", n |-> c.n]],
                            Ev(1, "x") @@ [f |-> "sg", n |-> c.n, t |-> c.t])}
    [] c.k = "sxp" -> {Step1(Push(idle, [k |-> "tres", n |-> c.n]), None)}
    [] c.k = "sp" -> {Step1(IF S.ts[c.n].g = 0 THEN Finished(S, c.n, "ok")
                            ELSE IF S.ts[c.n].c THEN Finished(S, c.n, "aborted")
                            ELSE [S EXCEPT !.cur = [k |-> "sg", n |-> c.n]], Ev(1, "S") @@ [k |-> c.n, ex |-> TRUE])}
    [] c.k = "sg" -> {Step1(IF S.ts[c.n].g \in S.open
                            THEN [S EXCEPT !.ts[c.n].st = "push", !.ts[c.n].r = "ok", !.cur = [k |-> "sxp", n |-> c.n]]
                            ELSE [idle EXCEPT !.ts[c.n].st = "wait"], Ev(1, "sg") @@ [n |-> c.n])}
    [] c.k = "h" -> {Step1(Push0(idle, [k |-> "H", n |-> c.n]), None)}

Pop(S) ==
  LET x == Head(S.q)
      s == [S EXCEPT !.q = Tail(@)] IN
  CASE x.k = "start" -> ToB(s, "begin")
    [] x.k = "emit" -> IF s.b.st = "wait" /\ I(s).k = "g" /\ s.b.comp = ""
                       THEN [s EXCEPT !.b.c = TRUE, !.cur = [k |-> "x", t |-> x.t]]
                       ELSE [s EXCEPT !.b.c = TRUE]
    [] x.k = "res" -> ToB(s, "res")
    [] x.k = "sp" -> [s EXCEPT !.ts[x.n].st = "run", !.cur = [k |-> "sp", n |-> x.n]]
    [] x.k = "tc" -> IF s.ts[x.n].st = "wait" /\ s.ts[x.n].r = ""
                     THEN [s EXCEPT !.ts[x.n].c = TRUE, !.cur = [k |-> "sx", n |-> x.n, t |-> x.t]]
                     ELSE [s EXCEPT !.ts[x.n].c = TRUE]
    [] x.k = "tres" -> Finished(s, x.n, s.ts[x.n].r)
    [] x.k = "free" -> s

Work(S) == S.q # <<>> \/ S.b.st # "gone" \/ S.hold > 0 \/ S.det > 0 \/ Pending(S) # {}
Threw(S) == S.b.exc > 0 /\ S.b.st = "gone"
Exc(S) == "x" \o ToString(S.b.exc)

\* the state, and with it everything left in the context, goes with its last owner
Dead(S) == Done(S) /\ ~S.obj.st /\ Live(S) = {}
KillStep(S) ==
  IF ~Dead(S) THEN {}
  ELSE UNION { {Step1([S EXCEPT !.hold = @ - 1], Ev(w, "x") @@ [f |-> "hold", n |-> 0, t |-> "a"]) : z \in IF S.hold > 0 /\ S.b.st = "wait" THEN {1} ELSE {}}
               \cup {Step1([S EXCEPT !.b.st = "dead"], Ev(w, "gone") @@ [n |-> "local"]) : z \in IF S.b.st = "wait" THEN {1} ELSE {}}
               \cup {Step1([S EXCEPT !.b.st = "gone"], Ev(w, "gone") @@ [n |-> "param"]) : z \in IF S.b.st \in {"dead", "new"} THEN {1} ELSE {}}
             : w \in {0, 1} }

T1(S) ==
  CASE S.os = "new" -> {Step1(Push([S EXCEPT !.os = "run"], [k |-> "start"]), None)}
    [] S.os = "run" ->
         IF InBody(S) THEN BodyStep(S)
         ELSE IF S.cur.k # "" THEN CurStep(S)
         ELSE IF Threw(S) \/ S.stop \/ ~Work(S)
         THEN {Step1([S EXCEPT !.os = "left", !.stop = TRUE], None)}
         ELSE IF S.q # <<>> THEN {Step1(Pop(S), None)} ELSE {}
    [] S.os = "left" ->       \* it says so only now
         {Step1([S EXCEPT !.os = IF Live(S) # {} THEN "post" ELSE IF Threw(S) THEN "unh" ELSE "fin",
                          !.aw = [n \in DOMAIN S.aw |-> IF S.aw[n].st = "wait"
                                  THEN [S.aw[n] EXCEPT !.st = "told", !.r = IF Threw(S) THEN Exc(S) ELSE "ok"] ELSE S.aw[n]]], None)}
    [] S.os = "post" ->
         LET n == CHOOSE n \in DOMAIN S.aw : S.aw[n].st = "told" IN
         {Step1(Push0([S EXCEPT !.aw[n].st = "posted", !.os = "fin"], [k |-> "A", n |-> n]), None)}
    [] S.os = "unh" -> {Step1([S EXCEPT !.os = "fin"], Ev(1, "unhandled") @@ [r |-> Exc(S)])}
    [] S.os = "fin" -> {Step1([S EXCEPT !.os = "exit"], None)}
    [] OTHER -> {}

----------------------------------------------------------------------------
(* the owner *)
Ph(S, p) == [S EXCEPT !.own = [ph |-> p] @@ @]
Back(S) == Ph(S, "back")
Begin(S, c) == [S EXCEPT !.own = [ph |-> "call"] @@ c]

\* the coroutine awaiting is resumed, or goes on at once: a thread it owns is joined first, and what it owned of the
\* thread goes before it goes on
Resumed(S, n, p) ==
  LET a == S.aw[n] IN
  IF a.st # "done" THEN IF a.th /\ S.os # "exit" THEN {} ELSE {Step1([S EXCEPT !.aw[n].st = "done"], None)}
  ELSE IF a.th /\ Dead(S) /\ S.b.st # "gone" THEN {}
  ELSE {Step1(Ph(S, p), Ev(0, "A") @@ [n |-> n, r |-> a.r])}
Unjoinable(c) == (IF c.f = "d" THEN "" ELSE "threw:") \o "std:Invalid argument"

Waiting(S, k) == {j \in DOMAIN S.ts : S.ts[j].st = "wait" /\ S.ts[j].r = "" /\ S.ts[j].g = k}
BWaits(S, k) == S.b.st = "wait" /\ I(S).k = "g" /\ I(S).a = k /\ S.b.comp = ""

Loop0(S, until) ==    \* T0 runs its own context
  LET c == S.own IN
  IF c.ph = "A" THEN Resumed(S, c.j, "loop")
  ELSE IF until THEN {Step1(Back(S), None)}
  ELSE IF S.q0 = <<>> THEN {}
  ELSE LET x == Head(S.q0)
           s == [S EXCEPT !.q0 = Tail(@)] IN
       IF x.k = "A" THEN {Step1([s EXCEPT !.own = [ph |-> "A", j |-> x.n] @@ @], None)}
       ELSE {Step1(Ph([s EXCEPT !.ts[x.n].st = "over"], "loop"), Ev(0, "H") @@ [k |-> x.n, r |-> S.ts[x.n].r])}

Said(S) == {Step1(Back(S), Ev(0, "r") @@ [r |-> S.own.r])}
Say(S, r) == [S EXCEPT !.own = [ph |-> "r", r |-> r] @@ @]

T0(S) ==
  LET c == S.own
      ph == c.ph
      skip == {Step1(Back(S), None)} IN
  IF ph = "r" THEN Said(S)
  ELSE IF ph \in {"idle", "back", "end"} THEN {}
  ELSE CASE c.c = "n" ->
         IF S.obj.has \/ S.os # "none" THEN skip
         ELSE {Step1(Back([S EXCEPT !.os = "new", !.b.st = "new", !.obj = [has |-> TRUE, st |-> TRUE, th |-> TRUE]]), None)}
    [] c.c = "c" -> IF S.obj.st THEN {Step1(Back(Push(S, [k |-> "emit", t |-> c.t])), None)} ELSE skip
    [] c.c = "a" ->
         IF ~S.obj.has THEN skip
         ELSE IF ph = "A" THEN Resumed(S, c.n, "back")
         ELSE LET rv == c.rv
                  s == [S EXCEPT !.obj.st = FALSE, !.obj.th = @ /\ ~rv]
                  w(st, r) == [s EXCEPT !.aw = Put(@, c.n, [st |-> st, r |-> r, th |-> rv /\ S.obj.th])] IN
              IF ~S.obj.st THEN {Step1(Ph(w("ready", "expired"), "A"), None)}
              ELSE IF Done(S) THEN {Step1(Ph(w("ready", IF rv /\ ~S.obj.th THEN Unjoinable(c) ELSE "ok"), "A"), None)}
              ELSE {Step1(Back(w("wait", "")), None)}
    [] c.c = "C" -> IF c.j \in Live(S) THEN {Step1(Back(Push(S, [k |-> "emit", t |-> c.t])), None)} ELSE skip
    [] c.c = "P" -> Loop0(S, S.q0 = <<>>)
    [] c.c = "W" -> Loop0(S, Live(S) = {})
    [] c.c = "j" -> IF ~S.obj.has THEN skip
                    ELSE IF ~S.obj.th THEN {Step1(Say(S, "err"), None)}
                    ELSE IF S.os = "exit" THEN {Step1(Say([S EXCEPT !.obj.th = FALSE], "ok"), None)} ELSE {}
    [] c.c = "d" -> IF ~S.obj.has THEN skip
                    ELSE IF ~S.obj.th THEN {Step1(Say(S, "err"), None)}
                    ELSE {Step1(Say([S EXCEPT !.obj.th = FALSE, !.obj.st = FALSE], "ok"), None)}
    [] c.c = "x" ->
         IF ~S.obj.has THEN skip
         ELSE IF S.obj.st THEN {Step1(Ph([S EXCEPT !.stop = TRUE, !.obj.st = FALSE], "join"), None)}
         ELSE IF S.obj.th THEN IF S.os = "exit" THEN {Step1([S EXCEPT !.obj.th = FALSE], None)} ELSE {}
         ELSE IF ph = "join" /\ S.b.st # "gone" THEN {}          \* it took everything with it
         ELSE {Step1(Back([S EXCEPT !.obj.has = FALSE]), None)}
    [] c.c = "m" -> skip
    [] c.c = "q" -> IF ~S.obj.has THEN skip ELSE {Step1(Say(S, IF S.obj.st /\ ~Done(S) THEN "ok" ELSE "bad"), None)}
    [] c.c = "J" -> IF ~S.obj.has THEN skip ELSE {Step1(Say(S, IF S.obj.th THEN "yes" ELSE "no"), None)}
    [] c.c = "O" ->
         IF ph = "call"
         THEN {Step1(Ph([S EXCEPT !.open = @ \cup {c.k},
                           !.b.comp = IF BWaits(S, c.k) THEN "ok" ELSE @,
                           !.ts = [j \in DOMAIN S.ts |-> IF j \in Waiting(S, c.k) THEN [S.ts[j] EXCEPT !.r = "ok", !.st = "push"] ELSE S.ts[j]],
                           !.own = [go |-> [k : {"tres"}, n : Waiting(S, c.k)] \cup {[k |-> "res"] : z \in IF BWaits(S, c.k) THEN {1} ELSE {}}] @@ @],
                       "open"), None)}
         ELSE IF c.go = {} THEN skip
         ELSE {Step1(Push([S EXCEPT !.own.go = @ \ {x}], x), None) : x \in c.go}
    [] c.c = "S" ->
         IF ~S.obj.has \/ (ph = "call" /\ c.k \in DOMAIN S.ts) THEN skip
         ELSE IF ph = "call"
         THEN IF S.obj.st /\ ~Done(S)
              THEN {Step1(Ph([S EXCEPT !.ts = Put(@, c.k, [st |-> "new", g |-> c.g, c |-> FALSE, r |-> ""])], "spawn"), None)}
              ELSE {Step1(Say([S EXCEPT !.ts = Put(@, c.k, [st |-> "over", g |-> c.g, c |-> FALSE, r |-> ""])], "bad"), None)}
         \* the thread may end in between: then it never gets to it
         ELSE IF ph = "spawn" THEN {Step1(Ph([S EXCEPT !.ts[c.k].st = "posted"], "push"), None)}
         ELSE {Step1(Say(Push(S, [k |-> "sp", n |-> c.k]), "ok"), None)}
    [] c.c = "Z" ->
         \* not when the context it runs on is gone
         IF c.k \notin DOMAIN S.ts \/ S.ts[c.k].st = "over" \/ (~S.obj.st /\ Live(S) = {}) THEN skip
         ELSE {Step1(Back(Push(S, [k |-> "tc", n |-> c.k, t |-> c.t])), None)} \cup (IF Done(S) THEN skip ELSE {})

Steps(S) == T0(S) \cup T1(S) \cup KillStep(S)
=============================================================================
