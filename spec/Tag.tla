-------------------------------- MODULE Tag --------------------------------
(***************************************************************************)
(* What a single tag says about itself, and how values become bytes.       *)
(*                                                                         *)
(* A tag is [k, g, x, f, v, nd]: kind ("known", "unknown", "strips",       *)
(* "counts", "thumb", "length"), group, number, type, value as big endian  *)
(* bytes, number of pieces of data it refers to.                           *)
(***************************************************************************)
EXTENDS Codec

Specials == {273, 279, 513, 514}
SpecialKind(x) == CASE x = 273 -> "strips" [] x = 279 -> "counts" [] x = 513 -> "thumb" [] x = 514 -> "length"
Listed(g, x) == IsKnown(g, x) \/ x \in Specials
Defined(g, x) == IF x \in Specials THEN U32 ELSE DefType(g, x)
Usual(g, x) == Known[<<g, x>>][5]

(* the tag a number stands for, with the value the bytes denote *)
Make(g, x, f, be, b) ==
  IF x \in Specials THEN [k |-> SpecialKind(x), g |-> 1, x |-> x, f |-> U32, v |-> Raw(U32, be, b), nd |-> 0]
  ELSE IF IsKnown(g, x) THEN LET t == DefType(g, x) IN [k |-> "known", g |-> g, x |-> x, f |-> t, v |-> Plain(t, Raw(t, be, b)), nd |-> 0]
  ELSE [k |-> "unknown", g |-> g, x |-> x, f |-> f, v |-> Plain(f, Raw(f, be, b)), nd |-> 0]
Makeable(g, x, f, b) == (Len(b) % Size(IF Listed(g, x) THEN Defined(g, x) ELSE f)) = 0

(* its own account of itself *)
GroupOf(t) == IF t.k \in {"known", "unknown"} THEN t.g ELSE 1
CountOf(t) == CASE t.f = STR             -> Len(t.v) + 1
                [] t.k = "strips"        -> t.nd
                [] t.k \in {"thumb", "length"} -> 1
                [] t.k = "known" /\ t.v = <<>> -> Usual(t.g, t.x)
                [] OTHER                 -> Len(t.v) \div Size(t.f)
BytesOf(t, be) == CASE t.k \in {"strips", "thumb"} -> <<>>
                    [] t.f = STR -> t.v \o <<0>>
                    [] OTHER -> Raw(t.f, be, t.v)
CanWrite(t) == t.k = "known" => Writable(t.g, t.x)
Justified(t) == t.k = "unknown" => ~Listed(t.g, t.x)
PointsTo(t) == IF t.k = "known" /\ <<t.g, t.x>> \in Pointers THEN SubOf(<<t.g, t.x>>) ELSE 0

(* numbers of other sizes: w bytes, made of fields of fw bytes *)
FlipW(fw, v) == [i \in 1..Len(v) |-> v[fw * ((i - 1) \div fw) + (fw - ((i - 1) % fw))]]
RawW(fw, be, v) == IF be THEN v ELSE FlipW(fw, v)
=============================================================================
