-------------------------------- MODULE Fault --------------------------------
(***************************************************************************)
(* Operations on a file when one of the file system calls they make fails, *)
(* does less than it was asked for or is interrupted, or when the file may *)
(* not grow.                                                               *)
(*                                                                         *)
(* An outcome is [res, same, done, rd]: ok, err or how the call died; does *)
(* the file have the bytes it had before; does it have the bytes the       *)
(* operation leaves when nothing fails; was the same metadata read.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Calls == {"read", "write", "seek", "size", "open"}
\* part, one: less than asked for; intr: interrupted; io, full, acc: refused
Hows(c) == CASE c = "read"  -> {"part", "one", "intr", "io"}
             [] c = "write" -> {"part", "one", "intr", "io", "full"}
             [] c = "open"  -> {"acc"}
             [] OTHER       -> {"io"}
Schedules == UNION {{c} \X Hows(c) : c \in Calls} \cup {<<"grow", "full">>}

Answers(o) == o.res \in {"ok", "err"}
(* all or nothing: whatever happened, the operation has its whole effect   *)
(* and says so, or none at all and says so                                 *)
Whole(op, o) == CASE op = "R" -> o.same /\ (o.res = "ok" => o.rd)
                  [] OTHER    -> IF o.res = "ok" THEN o.done ELSE o.same
(* where nothing happened there is nothing to complain about               *)
Calm(o) == ~o.fired => o.res = "ok"
(* and what the file system refuses is not reported as done                *)
Honest(call, o) == call = "write" /\ o.fired /\ o.how \in {"io", "full"} => o.res = "err"
=============================================================================
