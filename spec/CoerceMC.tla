------------------------------ MODULE CoerceMC ------------------------------
(***************************************************************************)
(* Every tag of the table stored with every type: Convert keeps the number *)
(* each component denotes or refuses.  Every combination is printed and    *)
(* replayed as a block with that single entry.                             *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils

VARIABLES row, f, v, be
vars == <<row, f, v, be>>

Types == 1..12
(* values of a type, big endian: boundary numbers, counts zero to three *)
Classes(t) ==
  CASE t = U8  -> {<<>>, <<0>>, <<1>>, <<127>>, <<128>>, <<255>>, <<1, 2>>, <<0, 255, 3>>, <<9, 8, 7, 6, 5>>}
    [] t = STR -> {<<>>, <<48>>, <<49>>, <<50>>, <<0>>, <<1>>, <<65, 66>>, <<195, 164>>, <<233, 65>>, <<65, 0, 66, 0>>, <<240, 159, 152, 128>>, <<65, 66, 67, 68, 69, 70>>}
    [] t = S8  -> {<<>>, <<0>>, <<127>>, <<128>>, <<255, 1>>}
    [] t = UND -> {<<>>, <<0>>, <<48, 50, 51, 50>>, <<255, 0, 255, 0, 255>>, <<65, 66>>}
    [] t = U16 -> {<<>>, <<0, 0>>, <<0, 1>>, <<0, 255>>, <<1, 0>>, <<255, 255>>, <<0, 7, 1, 2>>, <<0, 1, 0, 2, 0, 3>>, <<1, 2, 3, 4, 5, 6>>}
    [] t = S16 -> {<<>>, <<0, 1>>, <<127, 255>>, <<128, 0>>, <<255, 255, 0, 2>>}
    [] t = U32 -> {<<>>, <<0, 0, 0, 0>>, <<0, 0, 0, 255>>, <<0, 0, 1, 0>>, <<0, 0, 255, 255>>, <<0, 1, 0, 0>>, <<255, 255, 255, 255>>, <<0, 0, 0, 1, 0, 0, 0, 2>>, <<0, 0, 0, 1, 0, 1, 0, 2>>}
    [] t = S32 -> {<<>>, <<0, 0, 0, 1>>, <<127, 255, 255, 255>>, <<255, 255, 255, 255>>, <<1, 2, 3, 4, 255, 6, 7, 8>>}
    [] t = UR  -> {<<>>, <<0, 0, 0, 1, 0, 0, 0, 2>>, <<0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 5, 0, 0, 0, 0>>, <<127, 255, 255, 255, 127, 255, 255, 255>>, <<128, 0, 0, 0, 0, 0, 0, 1>>,
                   <<0, 0, 0, 1, 128, 0, 0, 0>>, <<128, 0, 0, 0, 0, 0, 0, 2>>, <<255, 255, 255, 255, 255, 255, 255, 255>>, <<0, 0, 0, 3, 0, 0, 0, 4, 1, 2, 3, 4, 5, 6, 7, 8>>}
    [] t = SR  -> {<<>>, <<0, 0, 0, 1, 0, 0, 0, 2>>, <<255, 255, 255, 255, 0, 0, 0, 3>>, <<128, 0, 0, 0, 255, 255, 255, 255>>, <<0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 2, 3, 4, 5, 6, 7, 8, 255, 254, 253, 252, 0, 0, 0, 9>>}
    [] t = FLT -> {<<>>, <<63, 128, 0, 0>>, <<127, 192, 0, 1>>, <<255, 128, 0, 0, 0, 0, 0, 1>>, <<127, 160, 0, 1>>}
    [] t = DBL -> {<<>>, <<64, 9, 33, 251, 84, 68, 45, 24>>, <<127, 248, 0, 0, 0, 0, 0, 1>>, <<127, 240, 0, 0, 0, 0, 0, 1>>, <<128, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8>>}

Unknown == {<<g, 48879, 0, TRUE>> : g \in 1..4}
Init == /\ row \in {r \in Rows : <<r[1], r[2]>> \notin Pointers} \cup Unknown
        /\ f \in Types
        /\ v \in Classes(f)
        /\ be \in BOOLEAN
Spec == Init /\ [][UNCHANGED vars]_vars

(* the number component i denotes, as eight digits *)
Num(t, w, i) == Zeros(8 - Size(t)) \o Comp(w, Size(t), i)
Count(t, w) == Len(w) \div Size(t)
Result == Convert(row[1], row[2], f, row[3], v)
Good ==
  /\ Raw(f, FALSE, Raw(f, FALSE, v)) = v
  /\ row[3] # 0 =>
       LET r == Result IN
       /\ f = row[3] => r[1] = "ok"
       /\ f \in IntTypes /\ row[3] \in IntTypes =>
            IF r[1] \in {"ok", "may"}
            THEN Count(f, v) = Count(row[3], r[2]) /\ \A i \in 1..Count(f, v) : Num(f, v, i) = Num(row[3], r[2], i)
            ELSE \E i \in 1..Count(f, v) : Size(row[3]) < Size(f)
       /\ r[1] = "ratio" => SameRatios(v, r[2])
       /\ r[1] = "ok" /\ f = row[3] /\ f # STR => r[2] = v
(* conversions between types are always replayed, the rest is sampled *)
Must == row[3] # 0 /\ f # row[3] /\ Result[1] # "no" /\ (row[1] = 4 \/ (Len(v) > 0 /\ be = (Len(v) > Size(f))))
Emit == PrintT("CASE " \o ToJson([must |-> Must, kind |-> "blk", be |-> be, c |-> <<<<0, row[1], row[2], f, v>>>>, lay |-> [nul |-> Len(v) % 2 = 0]]))
=============================================================================
