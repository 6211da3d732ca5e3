------------------------------ MODULE RobustMC ------------------------------
(***************************************************************************)
(* Reading and modifying an image made of length-prefixed records when its *)
(* lengths do not tell the truth.  A record has a header (one unit) and a  *)
(* payload, and declares the length of both; one declared length has been  *)
(* replaced, the image has been cut, or a record is missing or repeated.   *)
(* The reader checks a declared length against what is there before it     *)
(* allocates and before it moves on; a modification works on a copy that   *)
(* replaces the image only on success.                                     *)
(*                                                                         *)
(* The damages are also the test cases: every damage is applied to images  *)
(* of every format by the harness (number i selects the field, piece or    *)
(* position, v the kind of value).                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Fmt    == IOEnv.FMT
Fields == atoi(IOEnv.FIELDS)     \* how many fields of an image are damaged
Sizes  == atoi(IOEnv.SIZES)      \* how many lengths
Shapes == atoi(IOEnv.SHAPES)
Huge == 1000

(* damages <<kind, i, v>> *)
Damages ==
  (({"field"} \X (0..Fields - 1)) \X (0..23))
  \* lengths a little too small, and the smallest ones; boxes inside boxes cut short
  \cup (({"size"} \X (0..Sizes - 1)) \X (0..47))
  \cup (IF Fmt = "HEIF" THEN ({"nest"} \X (0..Sizes - 1)) \X (0..31) ELSE {})
  \cup (({"cut"} \X (0..Fields - 1)) \X (0..3))
  \cup (({"cut"} \X (0..39)) \X {4, 7})
  \cup (({"del", "dup"} \X (0..9)) \X {0, 2})
  \cup (({"swap"} \X (0..5)) \X (0..5))
  \cup (({"short"} \X (0..9)) \X (0..12))
  \cup (({"grow"} \X (0..9)) \X {1, 2, 9})
  \cup (({"type"} \X (0..9)) \X (0..9))
  \cup (({"tail"} \X {0, 5, 20}) \X (0..7))
  \cup (({"text"} \X (0..3)) \X (0..15))
  \cup (({"none", "empty"} \X {0}) \X {0})

VARIABLES dmg, shape, op,        \* the case
          recs, total,           \* what the image claims and how long it is
          pos, alloc, st,        \* the reader
          image, copy
vars == <<dmg, shape, op, recs, total, pos, alloc, st, image, copy>>
K == dmg[1][1]
I == dmg[1][2]
V == dmg[2]

Good(s) == [k \in 1..3 |-> 1 + ((s + k) % 3)]         \* declared = actual, header included
Sum(r) == LET f[k \in 0..Len(r)] == IF k = 0 THEN 0 ELSE f[k - 1] + r[k] IN f[Len(r)]
ClassOf(v, old, all) ==
  CASE v \in {0, 1, 2, 3} -> v
    [] v = 5 -> IF old = 0 THEN Huge ELSE old - 1
    [] v = 6 -> old + 1
    [] v \in {7, 8, 9, 10, 16, 19, 23} -> Huge
    [] v \in {11, 12, 13} -> all - (v - 11)
    [] v = 14 -> all + 1
    [] v = 15 -> 2 * old
    [] OTHER -> 4
Damaged(r) ==
  LET k == 1 + (I % Len(r)) IN
  CASE K = "field" -> [r EXCEPT ![k] = ClassOf(V, @, Sum(r))]
    [] K = "size"  -> [r EXCEPT ![k] = IF V >= 40 THEN V - 40 ELSE IF V < @ THEN @ - 1 - V ELSE @ + V]
    [] K = "del"   -> SubSeq(r, 1, k - 1) \o SubSeq(r, k + 1, Len(r))
    [] K = "dup"   -> SubSeq(r, 1, k) \o SubSeq(r, k, Len(r))
    [] K = "empty" -> <<>>
    [] OTHER       -> r
Length(r) ==
  CASE K \in {"cut", "short", "nest"} -> (Sum(r) * (I % 4)) \div 4
    [] K \in {"del", "dup", "empty"} -> Sum(Damaged(r))
    [] K \in {"grow", "tail"} -> Sum(r) + 1 + V
    [] OTHER -> Sum(r)

Init == /\ dmg \in Damages
        /\ shape \in 0..Shapes - 1
        /\ op \in {"read", "write"}
        /\ recs = Damaged(Good(shape))
        /\ total = Length(Good(shape))
        /\ pos = 0 /\ alloc = 0 /\ st = "run"
        /\ image = "old" /\ copy = "old"

Left == total - pos
(* the lengths a reader may find at its position: the declared one where a *)
(* record starts, otherwise anything                                       *)
Starts == {Sum(SubSeq(Good(shape), 1, k)) : k \in 0..3}
Found  == IF K \notin {"swap", "type", "text", "nest"} /\ \E k \in 0..Len(recs) - 1 : Sum(SubSeq(Good(shape), 1, k)) = pos
          THEN {recs[CHOOSE k \in 1..Len(recs) : Sum(SubSeq(Good(shape), 1, k - 1)) = pos]}
          ELSE {0, 1, 2, 3, Huge}
Stop(s) == /\ st' = s
           /\ copy' = IF op = "write" THEN "partly" ELSE copy
           /\ image' = IF op = "write" /\ s = "ok" THEN "new" ELSE image
           /\ UNCHANGED <<dmg, shape, op, recs, total, pos, alloc>>
Record == /\ st = "run"
          /\ IF Left < 1 THEN Stop("ok")
             ELSE \E d \in Found :
                    IF d < 1 \/ d > Left THEN Stop("err")
                    ELSE /\ alloc' = alloc + d
                         /\ pos' = pos + d
                         /\ copy' = IF op = "write" THEN "partly" ELSE copy
                         /\ UNCHANGED <<dmg, shape, op, recs, total, st, image>>
Spec == Init /\ [][Record]_vars /\ WF_vars(Record)

Frugal     == alloc <= total
Inside     == pos <= total
Answer     == st \in {"run", "ok", "err"}
Untouched  == (op = "read" \/ st # "ok") => image = "old"
Terminates == <>(st # "run")

Emit == (pos = 0 /\ st = "run" /\ op = "read") =>
          PrintT("CASE " \o ToJson([fmt |-> Fmt, shape |-> shape, faults |-> <<<<K, I, V>>>>]))
=============================================================================
