------------------------------ MODULE FileSysMC ------------------------------
(***************************************************************************)
(* Threads that call the library, each call a sequence of steps on the     *)
(* file system (look the name up, open, read, compute, open for writing,   *)
(* shrink, write, close), interleaved in every way (sched = <<>>) or as a  *)
(* schedule demands (repeated until all is done).  One thread with a       *)
(* history of calls, or two threads with one call each on different files  *)
(* or both reading.  Every initial state is a test case; the harness makes *)
(* its threads follow the schedule at every system call.                   *)
(***************************************************************************)
EXTENDS FileSys, SequencesExt, Json, IOUtils

MaxOps == atoi(IOEnv.MAXOPS)
Mode == IOEnv.MODE     \* "one": a history, "two": two threads
VARIABLES progs, sched, turn, pc, at, buf, fds, disk, res
vars == <<progs, sched, turn, pc, at, buf, fds, disk, res>>
Threads == DOMAIN progs

Names == {<<n>> : n \in {"a", "b", "j", "h", "s", "t", "g", "o", "d", "n"}}
Ways == Names \cup {<<".", "a">>, <<"sub", "..", "b">>, <<"here", "s">>, <<"sub", "u">>, <<"sub", "e">>, <<"here", "sub", "u">>, <<"here", "here", "b">>, <<"a", "b">>}
Calls == {[o |-> "X", p |-> <<>>, a |-> ""]} \cup {[o |-> o, p |-> p, a |-> IF o = "W" THEN "p2" ELSE ""] : o \in {"R", "G", "W", "C", "C12", "C13"}, p \in Ways}
Some == {c \in Calls : c.p \in {<<"a">>, <<"b">>, <<"s">>, <<"sub", "u">>, <<"sub", "e">>, <<"j">>} /\ c.o # "C13"}
Fmt == [i \in 1..5 |-> IF i \in {1, 5} THEN "JPEG" ELSE "PNG"]
Disk0 == [i \in 1..5 |-> IF i <= 2 THEN "p1" ELSE IF i = 5 THEN "p5" ELSE "junk"]
Schedules == {<<>>, <<1, 2>>, <<1, 1, 2>>, <<1, 2, 2, 2>>, <<1, 2, 2, 1>>, <<1, 1, 1, 1, 2>>, <<2, 2, 2, 1, 2, 1>>}

Init == /\ progs \in (IF Mode = "one" THEN {<<q>> : q \in UNION {[1..n -> Calls] : n \in 1..MaxOps}}
                                      ELSE {<<<<c>>, <<x>>>> : <<c, x>> \in {y \in Some \X Some : Apart(y[1], y[2])}})
        /\ sched \in (IF Mode = "one" THEN {<<>>} ELSE Schedules)
        /\ turn = 0 /\ pc = [t \in DOMAIN progs |-> "look"] /\ at = [t \in DOMAIN progs |-> 1]
        /\ buf = [t \in DOMAIN progs |-> "none"] /\ fds = [t \in DOMAIN progs |-> {}] /\ disk = Disk0
        /\ res = [t \in DOMAIN progs |-> <<>>]

Done(t) == at[t] > Len(progs[t])
Call(t) == progs[t][at[t]]
(* the answer is given, all that is open is closed *)
Give(t, r) == /\ res' = [res EXCEPT ![t] = Append(@, r)] /\ at' = [at EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "look"]
              /\ fds' = [fds EXCEPT ![t] = {}] /\ buf' = [buf EXCEPT ![t] = "none"]
Go(t, s) == pc' = [pc EXCEPT ![t] = s] /\ UNCHANGED <<at, res>>
Step(t) ==
  LET c == Call(t) i == Target(c) IN
  CASE c.o = "X"       -> disk' = After(c, disk, Fmt) /\ Give(t, "ok")
    [] pc[t] = "look"  -> IF i = 0 THEN Give(t, IF c.o = "G" /\ Reach(c.p).k # "none" THEN "ok" ELSE "err") /\ UNCHANGED disk ELSE Go(t, "open") /\ UNCHANGED <<buf, fds, disk>>
    [] pc[t] = "open"  -> fds' = [fds EXCEPT ![t] = @ \cup {<<i, "r">>}] /\ Go(t, "read") /\ UNCHANGED <<buf, disk>>
    [] pc[t] = "read"  -> /\ buf' = [buf EXCEPT ![t] = disk[i]] /\ UNCHANGED disk
                          /\ IF Writing(c.o) THEN fds' = [fds EXCEPT ![t] = {}] /\ Go(t, "work") ELSE UNCHANGED fds /\ Go(t, "end")
    [] pc[t] = "work"  -> IF ~Ok(c, [j \in 1..5 |-> IF j = i THEN buf[t] ELSE "junk"], Fmt) THEN Give(t, "err") /\ UNCHANGED disk
                          ELSE /\ buf' = [buf EXCEPT ![t] = After(c, [j \in 1..5 |-> IF j = i THEN @ ELSE "junk"], Fmt)[i]]
                               /\ Go(t, "wopen") /\ UNCHANGED <<fds, disk>>
    [] pc[t] = "wopen" -> fds' = [fds EXCEPT ![t] = @ \cup {<<i, "w">>}] /\ Go(t, "shrink") /\ UNCHANGED <<buf, disk>>
    [] pc[t] = "shrink" -> disk' = [disk EXCEPT ![i] = "part"] /\ Go(t, "write") /\ UNCHANGED <<buf, fds>>
    [] pc[t] = "write" -> disk' = [disk EXCEPT ![i] = buf[t]] /\ Go(t, "end") /\ UNCHANGED <<buf, fds>>
    [] OTHER           -> Give(t, IF c.o = "R" THEN IF buf[t] = "junk" THEN "err" ELSE buf[t] ELSE "ok") /\ UNCHANGED disk
(* whose turn it is: threads that are done are passed over *)
Whose == LET n == Len(sched) order == [k \in 1..n |-> sched[((turn + k - 1) % n) + 1]] IN
         {k \in 1..n : ~Done(order[k]) /\ \A j \in 1..k - 1 : Done(order[j])}
Next == \E t \in Threads : /\ ~Done(t)
                           /\ IF sched = <<>> THEN turn' = turn
                              ELSE \E k \in Whose : sched[((turn + k - 1) % Len(sched)) + 1] = t /\ turn' = (turn + k) % Len(sched)
                           /\ Step(t)
                           /\ UNCHANGED <<progs, sched>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
AllDone == \A t \in Threads : Done(t)
Aimed == UNION {UNION {IF progs[t][n].o = "X" THEN {1, 5} ELSE IF Writing(progs[t][n].o) THEN {Target(progs[t][n])} ELSE {} : n \in 1..Len(progs[t])} : t \in Threads}
(* at no time is anything but the files of writing calls different or open for writing *)
Own == (\A i \in 1..5 : i \in Aimed \/ disk[i] = Disk0[i]) /\ (\A t \in Threads : \A f \in fds[t] : f[2] = "w" => f[1] \in Aimed)
Answer(c, content) == IF ~Ok(c, content, Fmt) THEN "err" ELSE IF c.o = "R" THEN content[Target(c)] ELSE "ok"
(* what a thread sees and leaves is what it would alone *)
RECURSIVE Alone(_, _)
Alone(q, content) == IF q = <<>> THEN <<>> ELSE <<Answer(q[1], content)>> \o Alone(Tail(q), After(q[1], content, Fmt))
Final == FoldLeft(LAMBDA x, t : FoldLeft(LAMBDA y, c : After(c, y, Fmt), x, progs[t]), Disk0, [t \in 1..Cardinality(Threads) |-> t])
Independent == AllDone => (\A t \in Threads : res[t] = Alone(progs[t], Disk0)) /\ disk = Final
Closed == AllDone => \A t \in Threads : fds[t] = {}
Ends == <>AllDone
Start == turn = 0 /\ disk = Disk0 /\ \A t \in Threads : at[t] = 1 /\ pc[t] = "look"
Emit == ~Start \/ PrintT("CASE " \o ToJson([steps |-> IF Mode = "one" THEN [k \in 1..Len(progs[1]) |-> <<progs[1][k]>>] ELSE <<[t \in 1..Len(progs) |-> progs[t][1]]>>, sched |-> sched]))
=============================================================================
