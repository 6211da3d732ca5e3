------------------------------ MODULE ExportMC ------------------------------
(* Framing and its inverse for all short blocks, and the histories of      *)
(* exports and edits that get replayed.                                    *)
EXTENDS Export, Json, IOUtils

MaxLen == atoi(IOEnv.MAXLEN)
MaxOps == atoi(IOEnv.MAXOPS)
VARIABLES mode, x, ops
vars == <<mode, x, ops>>

Bytes == {0, 10, 70, 255}
Kinds == {"e", "o", "m", "n", "b"}
Strings == {"s" \o ToString(n) : n \in 0..79}
Huge == {"B", "L", "s65400", "s65496", "s65497", "s65498", "s65499", "s65500", "s65501", "s65502", "s65503", "s65504"}
(* the block is little or big endian and grows byte by byte; a history     *)
(* edits the object (E), and exports it for some format                    *)
Init == \/ mode = "frame" /\ x = <<>> /\ ops = <<>>
        \/ mode = "hist" /\ x \in Kinds /\ ops = <<>>
        \/ mode = "str" /\ x \in Strings \cup Huge /\ ops = <<"JPEG", "PNG1", "PNG0", "WEBP", "HEIF">>
Next == \/ mode = "frame" /\ Len(x) < MaxLen /\ \E b \in Bytes : x' = Append(x, b) /\ UNCHANGED <<mode, ops>>
        \/ mode = "hist" /\ Len(ops) < MaxOps /\ \E o \in Carried \cup Refused \cup {"E"} : ops' = Append(ops, o) /\ UNCHANGED <<mode, x>>
Spec == Init /\ [][Next]_vars

Text(f, t) == IF f = "PNG1" THEN Raw(t) ELSE <<>>
Invertible == mode = "frame" => \A f \in Carried : Holds(Unframe(f, Frame(f, x), Text(f, x)), x) /\ (f \notin {"PNG0", "PNG1"} => Unframe(f, Frame(f, x), <<>>).b = x)
(* no two blocks share a frame *)
Exact == mode = "frame" /\ Len(x) > 0 => \A f \in Carried \ {"PNG1"} : ~Holds(Unframe(f, Frame(f, Append(x, 7)), <<>>), x) /\ ~Holds(Unframe(f, Frame(f, [x EXCEPT ![1] = (@ + 1) % 256]), <<>>), x)
(* a frame damaged in its length does not pass *)
Guarded == mode = "frame" => \A f \in {"JPEG", "WEBP", "PNG0"} : LET b == Frame(f, x) IN ~Holds(Unframe(f, SubSeq(b, 1, Len(b) - 3), <<>>), x)
Emit == (mode = "frame" \/ (mode = "hist" /\ Len(ops) < MaxOps)) \/ PrintT("CASE " \o ToJson([m |-> x, ops |-> ops]))
=============================================================================
