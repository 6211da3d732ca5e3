------------------------------- MODULE FaultMC -------------------------------
(***************************************************************************)
(* An operation reads the file, works out the new content, stores it in    *)
(* place and adjusts the size; when a call fails on the way, what was read *)
(* first is put back.  One call of a kind - the k-th - fails, is partial   *)
(* or interrupted, or the disk has no room beyond a limit.  The file is    *)
(* made of cells; a write stores two of them.                              *)
(*                                                                         *)
(* Every schedule is a test case for images of every format; the harness   *)
(* lets every call of the real operation fail in turn.                     *)
(***************************************************************************)
EXTENDS Fault, TLC, Json, IOUtils

Shapes == atoi(IOEnv.SHAPES)
Fmts == {"JPEG", "PNG", "WEBP", "JXL", "HEIF", "TIFF"}
Ops(f) == {"R", "C", IF f = "TIFF" THEN "W:q1" ELSE "W:m1"} \cup (IF f = "JPEG" THEN {"C12", "C13"} ELSE {}) \cup (IF f # "TIFF" THEN {"W:L1"} ELSE {})
Old == <<"o", "o", "o", "o">>
New(op) == IF op \in {"C", "C12", "C13"} THEN <<"n", "n">> ELSE <<"n", "n", "n", "n", "n", "n">>

VARIABLES fmt, shape, op, sch, k,            \* the case
          pc, seen, pos, todo, file, buf, mode, err
vars == <<fmt, shape, op, sch, k, pc, seen, pos, todo, file, buf, mode, err>>

Writes(n) == [i \in 1..n |-> "write"]
Prog == IF op = "R" THEN <<"open", "read", "read">>
        ELSE <<"open", "read", "read", "open", "read", "read", "seek">> \o Writes(Len(New(op)) \div 2) \o <<"size">>
Back == <<"open", "read", "read", "seek", "size">> \o Writes(2)
Init == /\ fmt \in Fmts /\ shape \in 0..Shapes - 1 /\ op \in Ops(fmt) /\ sch \in Schedules
        /\ k \in (IF sch[1] = "grow" THEN 0..3 ELSE 0..5)
        /\ pc = 1 /\ seen = 0 /\ pos = 0 /\ todo = 0 /\ file = Old /\ buf = <<>> /\ mode = "run" /\ err = FALSE

Call == IF mode = "run" THEN Prog[pc] ELSE Back[pc]
Hit == mode = "run" /\ Call = sch[1] /\ seen = k
Refused == Hit /\ sch[2] \in {"io", "full", "acc"}
Less == Hit /\ sch[2] \in {"part", "one", "intr"}
Limit == IF sch[1] = "grow" THEN Len(Old) + k ELSE 100
Put(f, at, n, x) == [i \in 1..(IF Len(f) > at + n THEN Len(f) ELSE at + n) |-> IF i > at /\ i <= at + n THEN x[i] ELSE f[i]]
Min(a, b) == IF a < b THEN a ELSE b

(* nothing to put back before everything was read                          *)
Fail == mode' = (IF op = "R" \/ pc <= 3 THEN "done" ELSE "back") /\ pc' = 1 /\ err' = TRUE /\ todo' = 0 /\ UNCHANGED seen
Next1 == pc' = pc + 1 /\ UNCHANGED <<mode, err>>
Last == pc > Len(IF mode = "run" THEN Prog ELSE Back)
Count == seen' = IF mode = "run" /\ Call = sch[1] THEN seen + 1 ELSE seen

Finish == /\ mode \in {"run", "back"} /\ Last /\ mode' = "done"
          /\ UNCHANGED <<pc, seen, pos, todo, file, buf, err>>
DoOpen == /\ Call = "open"
          /\ IF Refused THEN Fail /\ UNCHANGED <<pos, file, buf>>
             ELSE pos' = 0 /\ Count /\ Next1 /\ UNCHANGED <<todo, file, buf>>
(* a read delivers two cells, or fewer; the reader goes on until it has all *)
DoRead == /\ Call = "read"
          /\ IF Refused THEN Fail /\ UNCHANGED <<pos, file, buf>>
             ELSE LET want == IF todo > 0 THEN todo ELSE 2
                      n == IF Less THEN (IF sch[2] = "intr" THEN 0 ELSE 1) ELSE Min(want, Len(file) - pos)
                  IN /\ pos' = pos + n
                     /\ buf' = IF mode = "run" /\ pc \in {2, 3} THEN buf \o SubSeq(file, pos + 1, pos + n) ELSE buf
                     /\ todo' = IF n < want /\ Len(file) > pos + n THEN want - n ELSE 0
                     /\ Count
                     /\ IF todo' > 0 THEN UNCHANGED <<pc, mode, err>> ELSE Next1
                     /\ UNCHANGED file
DoSeek == /\ Call = "seek"
          /\ IF Refused THEN Fail /\ UNCHANGED <<pos, file, buf>>
             ELSE pos' = 0 /\ Count /\ Next1 /\ UNCHANGED <<todo, file, buf>>
DoWrite == /\ Call = "write"
           /\ LET want == IF todo > 0 THEN todo ELSE 2
                  room == Limit - pos
                  n == IF Less THEN (IF sch[2] = "intr" THEN 0 ELSE 1) ELSE Min(want, room)
              IN IF Refused \/ (~Less /\ n <= 0) THEN Fail /\ UNCHANGED <<pos, file, buf>>
                 ELSE /\ file' = Put(file, pos, n, IF mode = "run" THEN New(op) ELSE buf)
                      /\ pos' = pos + n
                      /\ todo' = want - n
                      /\ Count
                      /\ IF todo' > 0 THEN UNCHANGED <<pc, mode, err>> ELSE Next1
                      /\ UNCHANGED buf
DoSize == /\ Call = "size"
          /\ IF Refused THEN Fail /\ UNCHANGED <<pos, file, buf>>
             ELSE /\ file' = SubSeq(file, 1, IF mode = "run" THEN Len(New(op)) ELSE 0)
                  /\ Count /\ Next1 /\ UNCHANGED <<pos, todo, buf>>
Next == /\ UNCHANGED <<fmt, shape, op, sch, k>>
        /\ \/ Finish
           \/ mode \in {"run", "back"} /\ ~Last /\ (DoOpen \/ DoRead \/ DoSeek \/ DoWrite \/ DoSize)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Outcome == mode = "done" =>
  IF op = "R" THEN file = Old /\ (~err => buf = Old)
  ELSE IF err THEN file = Old ELSE file = New(op)
\* the content put back is what was read before anything was changed
Kept == err /\ op # "R" /\ file # Old => buf = Old
Terminates == <>(mode = "done")
Emit == (pc = 1 /\ mode = "run" /\ k = 0 /\ todo = 0) =>
          PrintT("CASE " \o ToJson([fmt |-> fmt, shape |-> shape, op |-> op, call |-> sch[1], how |-> sch[2], seed |-> 7 * shape]))
=============================================================================
