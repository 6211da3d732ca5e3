------------------------------- MODULE TagMC -------------------------------
(***************************************************************************)
(* All tags of the table and an unknown number in every group, made from   *)
(* the bytes of every value class of every type in both byte orders.       *)
(* Turning a value into bytes and back is the identity, the table has no   *)
(* number twice in a group, directories and their offset tags correspond.  *)
(* MODE = "page" prints all pages of 256 numbers in all groups instead.    *)
(***************************************************************************)
EXTENDS Tag, Json, IOUtils

Mode == IOEnv.MODE
VARIABLES g, x, f, be, b
vars == <<g, x, f, be, b>>
Bytes(n) == {[i \in 1..n |-> (37 * i) % 256], [i \in 1..n |-> 255], [i \in 1..n |-> IF (i % 4) = 0 THEN 1 ELSE 0], [i \in 1..n |-> 128 + (i % 128)]}
Values == UNION {Bytes(n) : n \in {0, 1, 2, 3, 4, 6, 8, 16, 24}}
Numbers(h) == {r[2] : r \in {r \in Rows : r[1] = h}} \cup Specials \cup {48879}
(* the type given is the defined one, or any type for an unknown number *)
Kinds(h, y) == IF Listed(h, y) THEN {Defined(h, y), 2, 12} ELSE 1..12
Init == /\ g \in 1..4
        /\ IF Mode = "page" THEN x \in 0..255 /\ f = 0 /\ be = FALSE /\ b = <<>>
           ELSE /\ x \in Numbers(g) /\ f \in Kinds(g, x) /\ be \in BOOLEAN
                /\ b \in Values
Spec == Init /\ [][UNCHANGED vars]_vars

T == Make(g, x, f, be, b)
Same(t, u) == t.k = u.k /\ t.x = u.x /\ t.f = u.f /\ t.v = u.v
Stable == Mode # "page" /\ Makeable(g, x, f, b) =>
            /\ T.k \notin {"strips", "thumb"} =>
                 /\ Same(Make(g, x, f, be, BytesOf(T, be)), T)
                 /\ Same(Make(g, x, f, ~be, BytesOf(T, ~be)), T)
                 /\ T.f # STR => BytesOf(T, be) = b
            /\ T.f # STR /\ T.k \in {"known", "unknown"} /\ b # <<>> => CountOf(T) * Size(T.f) = Len(b)
            /\ T.f \in {U8, S8, UND, STR} => BytesOf(T, TRUE) = BytesOf(T, FALSE)
            /\ (T.k = "unknown" => Justified(T))
Once == \A r, s \in Rows : r[1] = s[1] /\ r[2] = s[2] => r = s
Tree == \A p \in Pointers : IsKnown(p[1], p[2]) /\ DefType(p[1], p[2]) = U32
Emit == PrintT("CASE " \o (IF Mode = "page" THEN ToJson([k |-> "page", g |-> g, p |-> x]) ELSE ToJson([k |-> "make", g |-> g, x |-> x, f |-> f, be |-> be, b |-> b])))
=============================================================================
