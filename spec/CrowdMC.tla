------------------------------ MODULE CrowdMC ------------------------------
(***************************************************************************)
(* Directories with many entries.  The number of entries is stored in two  *)
(* bytes; the number read back is the one meant exactly if it Fits, so an  *)
(* encoder has to refuse the others.  Objects (via "obj") and blocks (via  *)
(* "blk") with that many entries are replayed.                             *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils

VARIABLES n, g, be, via
vars == <<n, g, be, via>>

Sizes == {0, 1, 2, 127, 128, 255, 256, 257, 4095, 32767, 32768, 65280, 65534, 65535, 65536}
Init == /\ n \in Sizes
        /\ g \in {3, 4}               \* groups without pointers: every number is free
        /\ be \in BOOLEAN
        /\ via \in {"obj", "blk"}
        /\ via = "blk" => Fits(n)
        /\ n > 4096 => (g = 4 /\ be = (via = "obj"))
Spec == Init /\ [][UNCHANGED vars]_vars

TwoBytes(k) == <<(k \div 256) % 256, k % 256>>
Meant(k)   == TwoBytes(k)[1] * 256 + TwoBytes(k)[2]
Sound == (Meant(n) = n) <=> Fits(n)
Emit == PrintT("CASE " \o ToJson([must |-> TRUE, kind |-> "crowd", be |-> be, n |-> n, g |-> g, via |-> via]))
=============================================================================
