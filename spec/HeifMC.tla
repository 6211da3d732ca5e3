------------------------------- MODULE HeifMC -------------------------------
(***************************************************************************)
(* How the library rewrites a HEIF file, at the level of file positions.   *)
(*                                                                         *)
(* The file is a sequence of cells (labelled bytes) grouped into boxes.    *)
(* The meta box holds the item table; an item is a base offset and a       *)
(* sequence of extents, which are positions in the file.  Adding an EXIF   *)
(* item makes the meta box grow, and replacing its data makes a media data *)
(* box grow or shrink; both move everything behind, and the base offsets,  *)
(* extent offsets and the chunk offsets of a track have to follow.         *)
(*                                                                         *)
(* Checked for every layout of a bounded grammar and every bounded history *)
(* of writes, edits and clears: every item, chunk and remaining byte keeps *)
(* the cells it had, and the image as a whole refines Container.tla.  The  *)
(* behaviours are replayed into the real library.                          *)
(***************************************************************************)
EXTENDS Container, Integers, TLC, Json, IOUtils

MaxShape == atoi(IOEnv.MAXSHAPE)
MaxOps   == atoi(IOEnv.MAXOPS)
Stride   == atoi(IOEnv.STRIDE)
Phase    == atoi(IOEnv.PHASE)
Growth   == 3      \* cells a new item adds to the meta box
HdrLen   == 1      \* cells of a box header

----------------------------------------------------------------------------
(* Layouts: tokens in data order, and choices which do not concern order   *)
Tokens == {"IMG", "PART", "ZERO", "GAP", "SAMP", "SPLIT", "EXIF:o1", "EXIF2:o2"}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Count(s, t) == Cardinality({i \in DOMAIN s : s[i] = t})
Data   == {s \in Seqs(Tokens, MaxShape) : Count(s, "EXIF:o1") <= 1 /\ Count(s, "EXIF2:o2") <= Count(s, "EXIF:o1") /\ Count(s, "SPLIT") <= 1 /\ (s # <<>> => s[1] # "SPLIT") /\ Count(s, "ZERO") <= 1}
Places == {<<>>, <<"FIRST">>}
\* does not matter to the model, but to the encoding of the item table
Tables == {<<>>, <<"V1", "O8", "L8", "IREF1">>, <<"V2", "I3", "BIG", "X4">>, <<"IDAT", "MD0", "IINF1">>, <<"MD64", "CO64", "IREF0", "UUID">>, <<"X8", "PITM1", "B8", "TRAIL">>, <<"O0", "B4", "FREE">>}
\* no base offsets, the first extent as base, a base in front of the data
Bases  == {"none", "min", "low"}
LenOf(t) == CASE t = "IMG" -> 2 [] t = "PART" -> 1 [] t = "ZERO" -> 0 [] t = "GAP" -> 1 [] t = "SAMP" -> 1 [] t = "SPLIT" -> 0 [] OTHER -> 4

VARIABLES
  shape,    \* tokens
  place, table, base,
  file,     \* cells
  boxes,    \* sequence of [kind, start, size], covering the file
  items,    \* sequence of [kind, base, ext]; ext is a sequence of [off, len]
  chunks,   \* chunk offsets of a track
  carr,     \* payload names of the EXIF item, <<>> or one
  ops, prev
vars == <<shape, place, table, base, file, boxes, items, chunks, carr, ops, prev>>

End(b) == b.start + b.size
\* positions are counted from 0
Cells(f, off, len) == SubSeq(f, off + 1, off + len)
Label(i, n) == [k \in 1..n |-> <<i, k>>]

----------------------------------------------------------------------------
(* Initial image                                                           *)
SplitAt(s) == IF \E i \in DOMAIN s : s[i] = "SPLIT" THEN CHOOSE i \in DOMAIN s : s[i] = "SPLIT" ELSE Len(s) + 1
RECURSIVE Flat(_, _, _)
Flat(s, i, j) == IF i > j THEN <<>> ELSE Label(ToString(i), LenOf(s[i])) \o Flat(s, i + 1, j)
RECURSIVE SumLen(_, _, _)
SumLen(s, i, j) == IF i > j THEN 0 ELSE LenOf(s[i]) + SumLen(s, i + 1, j)
Box(k, start, size) == [kind |-> k, start |-> start, size |-> size]
\* boxes in file order with their contents
Contents(s, p) ==
  LET h(k)   == <<<<"H:" \o k, 0>>>>
      ftyp   == <<"ftyp", h("ftyp")>>
      meta   == <<"meta", h("meta") \o Label("meta", 4)>>
      k      == SplitAt(s)
      m1     == <<"mdat", h("mdat") \o Flat(s, 1, k - 1)>>
      m2     == <<"mdat", h("mdat2") \o Flat(s, k + 1, Len(s))>>
      ms     == IF s = <<>> THEN <<>> ELSE IF k > Len(s) THEN <<m1>> ELSE <<m1, m2>>
  IN IF p = <<"FIRST">> /\ ms # <<>> THEN <<ftyp, m1, meta>> \o Tail(ms) ELSE <<ftyp, meta>> \o ms
RECURSIVE Tile(_, _)
Tile(c, pos) == IF c = <<>> THEN <<>> ELSE <<Box(c[1][1], pos, Len(c[1][2]))>> \o Tile(Tail(c), pos + Len(c[1][2]))
Join(c) == FoldLeft(LAMBDA a, x : a \o x[2], <<>>, c)
\* where the data of token i starts
PosOf(s, p, bs, i) ==
  LET k == SplitAt(s)
      ms == SelectSeq(bs, LAMBDA b : b.kind = "mdat")
  IN IF i < k THEN ms[1].start + HdrLen + SumLen(s, 1, i - 1) ELSE ms[2].start + HdrLen + SumLen(s, k + 1, i - 1)
Idx(s, t) == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : s[i] = t)
MkItem(k, exts, b) ==
  LET min == LET S == {exts[i][1] : i \in DOMAIN exts} IN CHOOSE x \in S : \A y \in S : x <= y
      mb  == IF b = "none" \/ exts = <<>> THEN 0 ELSE IF b = "min" THEN min ELSE 1
  IN [kind |-> k, base |-> mb, ext |-> [i \in DOMAIN exts |-> [off |-> exts[i][1] - mb, len |-> exts[i][2]]]]
InitItems(s, p, bs, b) ==
  LET single(t) == [j \in DOMAIN Idx(s, t) |-> MkItem(t, <<<<PosOf(s, p, bs, Idx(s, t)[j]), LenOf(t)>>>>, b)]
      ps == Idx(s, "PART")
      parts == IF ps = <<>> THEN <<>> ELSE <<MkItem("PART", [j \in DOMAIN ps |-> <<PosOf(s, p, bs, ps[j]), 1>>], b)>>
  IN single("IMG") \o single("ZERO") \o parts \o single("EXIF:o1") \o single("EXIF2:o2")

----------------------------------------------------------------------------
(* The algorithm                                                           *)
IsExif(it) == it.kind = "EXIF:o1"
HasExif(its) == \E i \in DOMAIN its : IsExif(its[i])
ExifAt(its) == CHOOSE i \in DOMAIN its : IsExif(its[i])

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
MoveItem(it, pos, delta) ==
  LET old(i) == it.base + it.ext[i].off
      new(i) == IF old(i) >= pos THEN old(i) + delta ELSE old(i)
      D      == DOMAIN it.ext
      moved  == \E i \in D : old(i) >= pos
      \* memoryless: an item which uses its base offset keeps on doing so
      b      == IF ~moved THEN it.base ELSE IF it.base = 0 THEN 0 ELSE SetMin({new(i) : i \in D})
  IN [it EXCEPT !.base = b, !.ext = [i \in D |-> [off |-> new(i) - b, len |-> it.ext[i].len]]]
MoveItems(its, pos, delta, exceptExif) == [i \in DOMAIN its |-> IF exceptExif /\ IsExif(its[i]) THEN its[i] ELSE MoveItem(its[i], pos, delta)]
MoveChunks(cs, pos, delta) == [i \in DOMAIN cs |-> IF cs[i] >= pos THEN cs[i] + delta ELSE cs[i]]

(* cut cells [a, e) of the file and put v there *)
Splice(f, a, e, v) == SubSeq(f, 1, a) \o v \o SubSeq(f, e + 1, Len(f))
(* box k grows by delta, the ones behind it move *)
Resize(bs, k, delta) == [i \in DOMAIN bs |-> IF i = k THEN [bs[i] EXCEPT !.size = @ + delta] ELSE IF i > k THEN [bs[i] EXCEPT !.start = @ + delta] ELSE bs[i]]
IndexOf(bs, k) == CHOOSE i \in DOMAIN bs : bs[i].kind = k /\ \A j \in 1..(i - 1) : bs[j].kind # k

St(f, bs, its, cs) == [file |-> f, boxes |-> bs, items |-> its, chunks |-> cs]

(* adds an EXIF item without data at the end of the (first or new) mdat *)
AddItem(s) ==
  LET hasM == \E i \in DOMAIN s.boxes : s.boxes[i].kind = "mdat"
      f0   == IF hasM THEN s.file ELSE s.file \o <<<<"H:mdat", 0>>>>
      b0   == IF hasM THEN s.boxes ELSE Append(s.boxes, Box("mdat", Len(s.file), HdrLen))
      at   == End(b0[IndexOf(b0, "mdat")])
      k    == IndexOf(b0, "meta")
      eom  == End(b0[k])
      its  == Append(s.items, [kind |-> "EXIF:o1", base |-> 0, ext |-> <<[off |-> at, len |-> 0]>>])
  IN St(Splice(f0, eom, eom, [i \in 1..Growth |-> <<"G", i>>]), Resize(b0, k, Growth), MoveItems(its, eom, Growth, FALSE), MoveChunks(s.chunks, eom, Growth))
(* replaces the data of the EXIF item *)
Replace(s, v) ==
  LET x   == s.items[ExifAt(s.items)]
      pos == x.base + x.ext[1].off
      end == pos + x.ext[1].len
      d   == Len(v) - x.ext[1].len
      inside == {i \in DOMAIN s.boxes : s.boxes[i].start + HdrLen <= pos /\ end <= End(s.boxes[i])}
      k   == SetMin(inside)
      mv  == MoveItems(s.items, end, d, TRUE)
  IN St(Splice(s.file, pos, end, v), Resize(s.boxes, k, d),
        [i \in DOMAIN mv |-> IF IsExif(mv[i]) THEN [mv[i] EXCEPT !.ext[1].len = Len(v)] ELSE mv[i]],
        MoveChunks(s.chunks, end, d))
DoWrite(s, m, n) == Replace(IF HasExif(s.items) THEN s ELSE AddItem(s), Label(m, n))

----------------------------------------------------------------------------
Ops == {"W:m1", "W:m2", "C", "E"}
Names == {"o1", "m1", "m2"} \cup {"e" \o ToString(i) : i \in 0..9}
Red == [m \in Names \cup {"r." \o n : n \in Names} |-> IF m \in Names THEN "r." \o m ELSE m]
Payload(op, n) == CASE op = "W:m1" -> "m1" [] op = "W:m2" -> "m2" [] OTHER -> "e" \o ToString(n)
Size(m) == CASE m = "m1" -> 2 [] m = "m2" -> 6 [] m \in {"r." \o n : n \in Names} -> 3 [] OTHER -> 5
Cur == St(file, boxes, items, chunks)

Init ==
  /\ shape \in Data /\ place \in Places /\ table \in Tables /\ base \in Bases
  /\ (place # <<>> => shape # <<>>) /\ ("O0" \in Range(table) => base = "min" /\ Count(shape, "PART") <= 1)
  /\ LET c == Contents(shape, place) IN
       /\ file = Join(c)
       /\ boxes = Tile(c, 0)
  /\ items = InitItems(shape, place, boxes, base)
  /\ chunks = [j \in DOMAIN Idx(shape, "SAMP") |-> PosOf(shape, place, boxes, Idx(shape, "SAMP")[j])]
  /\ carr = IF Count(shape, "EXIF:o1") = 1 THEN <<"o1">> ELSE <<>>
  /\ ops = <<>>
  /\ prev = [s |-> Cur, carr |-> carr]
Step(op) ==
  LET m == IF op = "C" THEN (IF carr = <<>> THEN "" ELSE Red[carr[1]]) ELSE Payload(op, Len(ops))
      s == IF m = "" THEN Cur ELSE DoWrite(Cur, m, Size(m))
  IN /\ file' = s.file /\ boxes' = s.boxes /\ items' = s.items /\ chunks' = s.chunks
     /\ carr' = IF m = "" THEN carr ELSE <<m>>
     /\ ops' = Append(ops, op)
     /\ prev' = [s |-> Cur, carr |-> carr]
     /\ UNCHANGED <<shape, place, table, base>>
Next == Len(ops) < MaxOps /\ \E op \in Ops : Step(op)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What the image holds, as units of Container.tla                         *)
Resolve(s, it) == FoldLeft(LAMBDA a, e : a \o Cells(s.file, it.base + e.off, e.len), <<>>, it.ext)
Area(s) == IF HasExif(s.items) THEN LET x == s.items[ExifAt(s.items)] IN (x.base + x.ext[1].off)..(x.base + x.ext[1].off + x.ext[1].len - 1) ELSE {}
KeptItems(s, b) == LET a == Area(s) IN FoldLeft(LAMBDA r, p : IF p \in a THEN r ELSE Append(r, s.file[p + 1]), <<>>, [i \in 1..(b.size - HdrLen) |-> b.start + HdrLen + i - 1])
Units(s, c) ==
  LET top == [i \in DOMAIN s.boxes |-> IF s.boxes[i].kind = "mdat" THEN Unit("mdat", KeptItems(s, s.boxes[i]), 0) ELSE Unit(s.boxes[i].kind, <<>>, 0)]
      its == [i \in DOMAIN s.items |-> IF IsExif(s.items[i]) THEN Unit("EXIF", c[1], 0) ELSE Unit("item", Resolve(s, s.items[i]), 0)]
      chs == [i \in DOMAIN s.chunks |-> Unit("chunk", Cells(s.file, s.chunks[i], 1), 0)]
  IN SelectSeq(top, LAMBDA u : ~(Kind(u) = "mdat" /\ Cont(u) = <<>>)) \o its \o chs
ImageOf(s, c) == Image(Units(s, c))

Op == ops[Len(ops)]
Refines == ops # <<>> =>
  ImageOf(Cur, carr) = (IF Op = "C" THEN ClearWith("HEIF", ImageOf(prev.s, prev.carr), Red)
                        ELSE WriteOf("HEIF", ImageOf(prev.s, prev.carr), Payload(Op, Len(ops) - 1)))
ExifData == (ops # <<>> /\ carr # <<>>) => Resolve(Cur, items[ExifAt(items)]) = Label(carr[1], IF carr[1] = "o1" THEN 4 ELSE Size(carr[1])) \/ carr[1] = "o1"
Heads == {<<"H:" \o k, 0>> : k \in {"ftyp", "meta", "mdat", "mdat2"}}
Tiled == /\ boxes[1].start = 0
         /\ \A i \in 2..Len(boxes) : boxes[i].start = End(boxes[i - 1])
         /\ End(boxes[Len(boxes)]) = Len(file)
         /\ \A i \in DOMAIN boxes : file[boxes[i].start + 1] \in Heads /\ \A p \in (boxes[i].start + 1)..(End(boxes[i]) - 1) : file[p + 1] \notin Heads
InBoxes == \A i \in DOMAIN items : \A j \in DOMAIN items[i].ext :
  LET a == items[i].base + items[i].ext[j].off e == a + items[i].ext[j].len IN
  \E k \in DOMAIN boxes : boxes[k].kind = "mdat" /\ boxes[k].start + HdrLen <= a /\ e <= End(boxes[k])
Natural == \A i \in DOMAIN items : items[i].base >= 0 /\ \A j \in DOMAIN items[i].ext : items[i].ext[j].off >= 0
(* without room for extent offsets an item keeps its position in the base *)
BaseOnly == "O0" \in Range(table) => \A i \in DOMAIN items : Len(items[i].ext) = 1 /\ ~IsExif(items[i]) => items[i].ext[1].off = 0
(* the file depends on the image and the last payload only *)
Forgets == \A m \in {"m1", "m2"}, n \in {1, 7} : DoWrite(Cur, m, Size(m)) = DoWrite(DoWrite(Cur, "m3", n), m, Size(m))

Emit == (Len(ops) = MaxOps /\ (TLCGet("distinct") % Stride) = Phase)
        => PrintT("CASE " \o ToJson([fmt |-> "HEIF", shape |-> shape \o place \o table \o (IF base # "none" THEN <<"BASE">> ELSE <<>>), ops |-> ops]))
=============================================================================
