------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* EXIF blocks and what they mean.                                         *)
(*                                                                         *)
(* A block is observed as a graph:                                         *)
(*   [be, len, ifds]   ifds: directories in the order they are linked      *)
(*   directory [n, g, off, end, next, ents, data]                          *)
(*   entry     [x, f, c, inl, off, d]   number, type code, count, whether  *)
(*             the value sits in the entry, its position, its raw bytes    *)
(*   data      [x, off, len, h]   bytes an offset tag refers to            *)
(* The content of a metadata object is a set of records                    *)
(*   [n, g, x, f, v, d]   v: the value as big endian bytes, d: digests of  *)
(*   the data an offset tag refers to.                                     *)
(* Decode gives the content a block stands for, WellFormed and Encodes say *)
(* what an encoder has to produce for a content.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, TagTable

Known == [k \in {<<r[1], r[2]>> : r \in Rows} |-> CHOOSE r \in Rows : r[1] = k[1] /\ r[2] = k[2]]
IsKnown(g, x)  == <<g, x>> \in DOMAIN Known
DefType(g, x)  == Known[<<g, x>>][3]
Writable(g, x) == IsKnown(g, x) => Known[<<g, x>>][4]

U8 == 1  STR == 2  U16 == 3  U32 == 4  UR == 5  S8 == 6  UND == 7  S16 == 8  S32 == 9  SR == 10  FLT == 11  DBL == 12
Size(f)  == CASE f \in {U8, STR, S8, UND} -> 1 [] f \in {U16, S16} -> 2 [] f \in {U32, S32, FLT} -> 4 [] OTHER -> 8
\* width of the numbers a component consists of
Width(f) == CASE f \in {UR, SR} -> 4 [] OTHER -> Size(f)

\* a directory stores its number of entries in two bytes
Fits(n) == n \in 0..65535

(* byte i of a value in the other byte order *)
Flip(f, v) == LET w == Width(f) IN [i \in 1..Len(v) |-> v[w * ((i - 1) \div w) + (w - ((i - 1) % w))]]
Raw(f, be, v) == IF be THEN v ELSE Flip(f, v)

ExifPtr == <<1, 34665>>  GpsPtr == <<1, 34853>>  InteropPtr == <<2, 40965>>
Pointers == {ExifPtr, GpsPtr, InteropPtr}
SubOf(k) == CASE k = ExifPtr -> 2 [] k = GpsPtr -> 4 [] k = InteropPtr -> 3
\* tags whose value is the position of data, and their lengths
OffTags == {273, 513}
LenTags == {279, 514}
Mate(x) == CASE x = 273 -> 279 [] x = 279 -> 273 [] x = 513 -> 514 [] x = 514 -> 513

----------------------------------------------------------------------------
(* Text: trailing NULs are not part of it; what is not UTF-8 is Latin-1    *)
RECURSIVE TrimNul(_)
TrimNul(v) == IF v # <<>> /\ v[Len(v)] = 0 THEN TrimNul(SubSeq(v, 1, Len(v) - 1)) ELSE v
RECURSIVE Utf8(_, _)
Tail8(v, i) == i <= Len(v) /\ v[i] \in 128..191
Utf8(v, i) ==
  IF i > Len(v) THEN TRUE
  ELSE LET b == v[i] IN
    IF b < 128 THEN Utf8(v, i + 1)
    ELSE IF b \in 194..223 THEN Tail8(v, i + 1) /\ Utf8(v, i + 2)
    ELSE IF b \in 224..239 THEN /\ Tail8(v, i + 1) /\ Tail8(v, i + 2)
                                /\ (b = 224 => v[i + 1] >= 160) /\ (b = 237 => v[i + 1] < 160)
                                /\ Utf8(v, i + 3)
    ELSE IF b \in 240..244 THEN /\ Tail8(v, i + 1) /\ Tail8(v, i + 2) /\ Tail8(v, i + 3)
                                /\ (b = 240 => v[i + 1] >= 144) /\ (b = 244 => v[i + 1] < 144)
                                /\ Utf8(v, i + 4)
    ELSE FALSE
RECURSIVE Latin1(_, _)
Latin1(v, i) == IF i > Len(v) THEN <<>>
                ELSE (IF v[i] = 0 THEN <<>> ELSE IF v[i] < 128 THEN <<v[i]>> ELSE <<192 + v[i] \div 64, 128 + (v[i] % 64)>>) \o Latin1(v, i + 1)
Text(v) == IF Utf8(v, 1) THEN TrimNul(v) ELSE Latin1(v, 1)
Plain(f, v) == IF f = STR THEN Text(v) ELSE v

----------------------------------------------------------------------------
(* Conversion of a value stored with type f to the defined type t          *)

Comp(v, w, i) == SubSeq(v, w * (i - 1) + 1, w * i)
AllComps(v, w, P(_)) == \A i \in 1..Len(v) \div w : P(Comp(v, w, i))
Zeros(k) == [i \in 1..k |-> 0]
IntTypes == {U8, U16, U32}
Widen(v, f, t)  == LET p == Size(f)  q == Size(t) IN
                   [i \in 1..(Len(v) \div p) * q |-> IF (i - 1) % q < q - p THEN 0 ELSE v[p * ((i - 1) \div q) + ((i - 1) % q) - (q - p) + 1]]
Narrow(v, f, t) == LET p == Size(f)  q == Size(t) IN
                   [i \in 1..(Len(v) \div p) * q |-> v[p * ((i - 1) \div q) + ((i - 1) % q) + (p - q) + 1]]
FitsIn(v, f, t) == LET P(c) == \A i \in 1..Size(f) - Size(t) : c[i] = 0 IN AllComps(v, Size(f), P)
NonNeg(v) == LET P(c) == c[1] < 128 IN AllComps(v, 4, P)

(* <<"ok", bytes>>: must be accepted with this number; <<"no">>: must be   *)
(* reported; <<"may", ..>>: either                                         *)
Convert(g, x, f, t, v) ==
  CASE f = t                                          -> <<"ok", Plain(f, v)>>
    [] t = U32 /\ f \in {U8, U16}                     -> <<"ok", Widen(v, f, t)>>
    [] t = U16 /\ f = U8                              -> <<"ok", Widen(v, f, t)>>
    [] \/ t = U16 /\ f = U32
       \/ t = U8 /\ f = U16                           -> IF FitsIn(v, f, t) THEN <<"ok", Narrow(v, f, t)>> ELSE <<"no">>
    [] t = SR /\ f = UR                               -> IF NonNeg(v) THEN <<"ratio", v>> ELSE <<"ratio?", v>>
    \* the altitude reference written as text: "0" or "1"
    [] t = U8 /\ f = STR /\ <<g, x>> = <<4, 5>>       -> IF v # <<>> /\ v[1] \in {0, 48} THEN <<"ok", <<0>>>>
                                                         ELSE IF v # <<>> /\ v[1] \in {1, 49} THEN <<"ok", <<1>>>> ELSE <<"no">>
    [] t = UND /\ f = STR /\ <<g, x>> = <<4, 27>>     -> <<"ok", v>>
    [] t = U8 /\ f = U32                              -> IF FitsIn(v, f, t) THEN <<"may", Narrow(v, f, t)>> ELSE <<"no">>
    [] t \in {U8, UND} /\ f \in {U8, STR, UND}        -> <<"may", v>>
    [] OTHER                                          -> <<"no">>

(* products of 32 bit numbers, as little endian base 256 digits *)
RECURSIVE Carry(_, _, _)
Carry(ds, i, c) == IF i > Len(ds) THEN <<>> ELSE <<(ds[i] + c) % 256>> \o Carry(ds, i + 1, (ds[i] + c) \div 256)
RECURSIVE SumTo(_, _, _, _)
SumTo(a, b, k, i) == IF i > 4 THEN 0 ELSE (IF k - i + 1 \in 1..4 THEN a[5 - i] * b[5 - (k - i + 1)] ELSE 0) + SumTo(a, b, k, i + 1)
Mul(a, b) == Carry([k \in 1..8 |-> SumTo(a, b, k, 1)], 1, 0)
\* ratios a/b and c/d of unsigned 32 bit numbers are the same
SameRatio(a, b, c, d) == \/ a = c /\ b = d
                         \/ b # Zeros(4) /\ d # Zeros(4) /\ Mul(a, d) = Mul(c, b)
SameRatios(u, s) == /\ Len(u) = Len(s)
                    /\ \A i \in 1..Len(u) \div 8 :
                         LET p == Comp(u, 8, i)  q == Comp(s, 8, i) IN
                         /\ SameRatio(SubSeq(p, 1, 4), SubSeq(p, 5, 8), SubSeq(q, 1, 4), SubSeq(q, 5, 8))
                         /\ \/ q[1] < 128 /\ q[5] < 128 

----------------------------------------------------------------------------
(* Meaning of a block                                                      *)

Ent(i, x) == CHOOSE e \in ToSet(i.ents) : e.x = x
HasEnt(i, x) == \E k \in DOMAIN i.ents : i.ents[k].x = x
IsPtr(i, e) == <<i.g, e.x>> \in Pointers
IsData(e)   == e.x \in OffTags \cup LenTags
Value(G, e) == Raw(e.f, G.be, e.d)
DataOf(i, x) == LET s == SelectSeq(i.data, LAMBDA q : q.x = x) IN [k \in DOMAIN s |-> s[k].h]
Rec(i, e, f, v, d) == [n |-> i.n, g |-> i.g, x |-> e.x, f |-> f, v |-> v, d |-> d]

(* what has to become of an entry *)
Fate(G, i, e) ==
  IF IsPtr(i, e) THEN <<"skip">>
  ELSE IF IsData(e) THEN
    IF ~HasEnt(i, Mate(e.x)) THEN <<"skip">>
    ELSE IF e.x \in OffTags THEN <<"ok", Rec(i, e, U32, <<>>, DataOf(i, e.x))>>
    ELSE LET c == Convert(i.g, e.x, e.f, U32, Value(G, e)) IN
         IF c[1] = "ok" THEN <<"ok", Rec(i, e, U32, c[2], <<>>)>> ELSE <<"no">>
  ELSE IF IsKnown(i.g, e.x) THEN
    LET t == DefType(i.g, e.x)
        c == Convert(i.g, e.x, e.f, t, Value(G, e))
    IN IF c[1] = "no" THEN c ELSE <<c[1], Rec(i, e, t, c[2], <<>>)>>
  ELSE <<"ok", Rec(i, e, e.f, Plain(e.f, Value(G, e)), <<>>)>>
Fates(G) == UNION {{Fate(G, G.ifds[k], G.ifds[k].ents[j]) : j \in DOMAIN G.ifds[k].ents} : k \in DOMAIN G.ifds}
Required(G) == {q[2] : q \in {q \in Fates(G) : q[1] = "ok"}}
MayBe(G)    == {q[2] : q \in {q \in Fates(G) : q[1] = "may"}}
MustFail(G) == <<"no">> \in Fates(G)
\* directories referred to more than once: not a tree, may be refused
Entangled(G) == Cardinality({G.ifds[k].off : k \in DOMAIN G.ifds}) # Len(G.ifds)
MayFail(G)  == \E q \in Fates(G) : q[1] \in {"no", "may", "ratio?"}
RatioRecs(G) == {q[2] : q \in {q \in Fates(G) : q[1] \in {"ratio", "ratio?"}}}
Key(r) == <<r.n, r.g, r.x>>
IsRatioOf(r, u) == Key(r) = Key(u) /\ r.f = SR /\ SameRatios(u.v, r.v)
DecodesTo(G, c) ==
  /\ Required(G) \subseteq c
  /\ \A r \in c \ Required(G) : r \in MayBe(G) \/ \E u \in RatioRecs(G) : IsRatioOf(r, u)
  /\ \A u \in RatioRecs(G) : \E r \in c : IsRatioOf(r, u)
  /\ \A r \in MayBe(G) : \E q \in c : Key(q) = Key(r)

(* A directory must not hold a tag twice, but there are photos where one   *)
(* does (several MakerNotes).  Such a block may be refused; otherwise all  *)
(* of the entries count.  Of several pointers to a group of                *)
(* sub-directories only one can count, as there is one place for it.       *)
PlainDistinct(G) == \A k \in DOMAIN G.ifds : LET i == G.ifds[k] IN
   \A j, q \in DOMAIN i.ents : i.ents[j].x = i.ents[q].x => j = q \/ IsPtr(i, i.ents[j])
Distinct(G) == \A k \in DOMAIN G.ifds : LET i == G.ifds[k] IN Cardinality({i.ents[j].x : j \in DOMAIN i.ents}) = Len(i.ents)

----------------------------------------------------------------------------
(* Shape of an encoded block                                               *)

(* Of values longer than this, other than strings, traces carry 256 bytes  *)
(* from both ends, a digest and the length only.                           *)
Long == 1600
Stated(e) == Size(e.f) * e.c

Regions(G) ==
  <<<<0, 8>>>>
  \o FoldLeft(LAMBDA a, i : a \o <<<<i.off, i.end>>>>
                \o SelectSeq([k \in DOMAIN i.ents |-> IF i.ents[k].inl THEN <<0, 0>> ELSE <<i.ents[k].off, i.ents[k].off + Stated(i.ents[k])>>], LAMBDA r : r[1] < r[2])
                \o SelectSeq([k \in DOMAIN i.data |-> <<i.data[k].off, i.data[k].off + i.data[k].len>>], LAMBDA r : r[1] < r[2]),
              <<>>, G.ifds)
Disjoint(G) == LET s == SortSeq(Regions(G), LAMBDA a, b : a[1] < b[1]) IN \A k \in 1..Len(s) - 1 : s[k][2] <= s[k + 1][1]
Inside(G)   == LET s == Regions(G) IN \A k \in DOMAIN s : s[k][1] >= 0 /\ s[k][2] <= G.len
NotDescending(G) == \A k \in DOMAIN G.ifds : \A j \in 1..Len(G.ifds[k].ents) - 1 : G.ifds[k].ents[j].x <= G.ifds[k].ents[j + 1].x
Ascending(G) == \A k \in DOMAIN G.ifds : \A j \in 1..Len(G.ifds[k].ents) - 1 : G.ifds[k].ents[j].x < G.ifds[k].ents[j + 1].x
InlineRule(G) == \A k \in DOMAIN G.ifds : \A j \in DOMAIN G.ifds[k].ents :
                   LET e == G.ifds[k].ents[j] IN /\ e.inl = (Size(e.f) * e.c <= 4)
                                                 /\ Len(e.d) = IF e.f # STR /\ Stated(e) > Long THEN 528 ELSE Stated(e)
PointerRule(G) == \A k \in DOMAIN G.ifds : \A j \in DOMAIN G.ifds[k].ents :
                   LET i == G.ifds[k] e == i.ents[j] IN
                   IsPtr(i, e) => /\ e.f = U32 /\ e.c = 1
                                  /\ \E m \in DOMAIN G.ifds : G.ifds[m].n = i.n /\ G.ifds[m].g = SubOf(<<i.g, e.x>>)
(* generic directories are chained, sub-directories lead nowhere *)
ChainRule(G) == \A k \in DOMAIN G.ifds : LET i == G.ifds[k] IN
                  IF i.g = 1 THEN IF i.next = 0 THEN \A m \in DOMAIN G.ifds : G.ifds[m].n <= i.n
                                  ELSE \E m \in DOMAIN G.ifds : G.ifds[m].g = 1 /\ G.ifds[m].n = i.n + 1 /\ G.ifds[m].off = i.next
                  ELSE i.next = 0

(* the entry that stands for a tag *)
EntryFor(G, r, e) ==
  /\ e.x = r.x /\ e.f = r.f
  /\ IF r.x \in OffTags THEN e.c = Len(r.d)
     ELSE IF r.f = STR THEN e.d = r.v \o <<0>> /\ e.c = Len(r.v) + 1
     ELSE e.d = Raw(r.f, G.be, r.v) /\ (Stated(e) = Len(r.v) \/ (Len(r.v) = 528 /\ Stated(e) > Long))
Stored(G, r) == \E k \in DOMAIN G.ifds : LET i == G.ifds[k] IN
                  /\ i.n = r.n /\ i.g = r.g
                  /\ \E j \in DOMAIN i.ents : EntryFor(G, r, i.ents[j])
                  /\ r.x \in OffTags => DataOf(i, r.x) = r.d
Stores(c) == {r \in c : Writable(r.g, r.x)}
AllStored(G, c) == \A r \in Stores(c) : Stored(G, r)
NothingElse(G, c) == \A k \in DOMAIN G.ifds : \A j \in DOMAIN G.ifds[k].ents :
                       LET i == G.ifds[k] e == i.ents[j] IN IsPtr(i, e) \/ \E r \in Stores(c) : Key(r) = <<i.n, i.g, e.x>>
=============================================================================
