------------------------------ MODULE CodecMC ------------------------------
(***************************************************************************)
(* Blocks as an encoder may lay them out: for every small content and      *)
(* every order of directories, values and data in the block, the graph is  *)
(* well-formed, stands for exactly that content, and a graph with a single *)
(* fault is told apart.  Contents (mode "obj") and contents with a layout  *)
(* (mode "lay") are printed and replayed into the library.                 *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils, FiniteSetsExt

Mode    == IOEnv.MODE
MaxTags == atoi(IOEnv.MAXTAGS)
Nrs     == 0..atoi(IOEnv.MAXNR)

VARIABLES c, be, order
vars == <<c, be, order>>

----------------------------------------------------------------------------
(* tags: one per kind of value and group                                   *)
P(n, g, x, f, v) == [n |-> n, g |-> g, x |-> x, f |-> f, v |-> v, d |-> <<>>]
Kinds(n) ==
  {{P(n, 1, 274, U16, <<1, 2>>)}, {P(n, 1, 271, STR, <<65, 66, 67>>)}, {P(n, 1, 282, UR, <<0, 0, 0, 72, 0, 0, 0, 1>>)},
   {P(n, 1, 36864, UND, <<>>)}, {P(n, 1, 40000, S16, <<255, 254, 1, 2, 3, 4>>)},
   {[P(n, 1, 273, U32, <<>>) EXCEPT !.d = <<"aaa", "bbbbb">>], P(n, 1, 279, U32, <<0, 0, 0, 3, 0, 0, 0, 5>>)},
   {[P(n, 1, 513, U32, <<>>) EXCEPT !.d = <<"cccc">>], P(n, 1, 514, U32, <<0, 0, 0, 4>>)},
   {P(n, 2, 34850, U16, <<0, 3>>)}, {P(n, 2, 42016, STR, <<97, 98, 99, 100>>)}, {P(n, 2, 33434, UR, <<0, 0, 0, 1, 0, 0, 0, 60>>)}, {P(n, 2, 45000, DBL, <<64, 9, 33, 251, 84, 68, 45, 24>>)},
   {P(n, 3, 1, STR, <<82, 57, 56>>)}, {P(n, 3, 49152, FLT, <<127, 192, 0, 1>>)}, {P(n, 3, 4097, U32, <<0, 0, 2, 0, 0, 0, 1, 0>>)},
   {P(n, 4, 1, STR, <<78>>)}, {P(n, 4, 5, U8, <<1>>)}, {P(n, 4, 2, UR, <<0, 0, 0, 48, 0, 0, 0, 1, 0, 0, 0, 51, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1>>)}}
DataLen(s) == CASE s = "aaa" -> 3 [] s = "bbbbb" -> 5 [] s = "cccc" -> 4

----------------------------------------------------------------------------
(* directories the content needs: sub-directories hang from their parents, *)
(* the chain has no holes                                                  *)
Dirs == LET used == {<<r.n, r.g>> : r \in c}
            top == IF used = {} THEN 0 ELSE Max({k[1] : k \in used})
        IN {<<n, 1>> : n \in 0..top} \cup used \cup {<<k[1], 2>> : k \in {k \in used : k[2] = 3}}
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
DirSeq == SetToSortSeq(Dirs, Less)
Subs(k) == {q \in Pointers : q[1] = k[2] /\ <<k[1], SubOf(q)>> \in Dirs}
Nums(k) == {r.x : r \in {r \in c : r.n = k[1] /\ r.g = k[2]}} \cup {q[2] : q \in Subs(k)}
NumSeq(k) == SetToSortSeq(Nums(k), <)
RecOf(k, x) == CHOOSE r \in c : r.n = k[1] /\ r.g = k[2] /\ r.x = x
IsSub(k, x) == <<k[2], x>> \in Subs(k)
Bytes(k, x) == IF IsSub(k, x) THEN 4 ELSE LET r == RecOf(k, x) IN
               IF x \in OffTags THEN 4 * Len(r.d) ELSE Len(r.v) + (IF r.f = STR THEN 1 ELSE 0)

(* blocks: data, directories, values outside of entries *)
Concat(s) == FoldLeft(LAMBDA a, b : a \o b, <<>>, s)
Blobs == Concat([i \in DOMAIN DirSeq |-> Concat([j \in DOMAIN NumSeq(DirSeq[i]) |->
           LET k == DirSeq[i]  x == NumSeq(k)[j] IN
           IF x \in OffTags /\ ~IsSub(k, x) THEN [m \in DOMAIN RecOf(k, x).d |-> <<"data", k, x, m, DataLen(RecOf(k, x).d[m])>>] ELSE <<>>])])
Values == Concat([i \in DOMAIN DirSeq |->
            LET k == DirSeq[i]  s == SelectSeq(NumSeq(k), LAMBDA x : Bytes(k, x) > 4)
            IN [m \in DOMAIN s |-> <<"val", k, s[m], 0, Bytes(k, s[m])>>]])
DirBlocks == [i \in DOMAIN DirSeq |-> <<"dir", DirSeq[i], 0, 0, 2 + 12 * Cardinality(Nums(DirSeq[i])) + 4>>]
Blocks == Blobs \o DirBlocks \o Values

(* order[i]: rank of block i *)
IsInj(p) == \A i, j \in DOMAIN p : p[i] = p[j] => i = j
Even(n) == n + (n % 2)
RECURSIVE Place(_, _, _, _)
Place(bl, p, rank, pos) == IF rank > Len(bl) THEN <<>>
                       ELSE LET i == CHOOSE i \in DOMAIN p : p[i] = rank
                            IN <<<<bl[i], Even(pos)>>>> \o Place(bl, p, rank + 1, Even(pos) + bl[i][5])
B4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>

Graph(p) ==
  LET ds == DirSeq
      bl == Blocks
      pl == Place(bl, p, 1, 8)
      pos == [b \in ToSet(bl) |-> pl[CHOOSE i \in DOMAIN pl : pl[i][1] = b][2]]
      size == [k \in Dirs |-> 2 + 12 * Cardinality(Nums(k)) + 4]
      seqs == [k \in Dirs |-> NumSeq(k)]
      recs == [q \in {<<r.n, r.g, r.x>> : r \in c} |-> CHOOSE r \in c : Key(r) = q]
      Rec1(k, x) == recs[<<k[1], k[2], x>>]
      dirs == [k \in Dirs |-> pos[<<"dir", k, 0, 0, size[k]>>]]
      DataAt(k, x, m) == pos[<<"data", k, x, m, DataLen(Rec1(k, x).d[m])>>]
      RawOf(k, x) == IF IsSub(k, x) THEN Raw(U32, be, B4(dirs[<<k[1], SubOf(<<k[2], x>>)>>]))
                     ELSE LET r == Rec1(k, x) IN
                          IF x \in OffTags THEN Raw(U32, be, Concat([m \in DOMAIN r.d |-> B4(DataAt(k, x, m))]))
                          ELSE IF r.f = STR THEN r.v \o <<0>> ELSE Raw(r.f, be, r.v)
      Entry(k, j) == LET x == seqs[k][j]  d == RawOf(k, x)  f == IF IsSub(k, x) THEN U32 ELSE Rec1(k, x).f IN
                     [x |-> x, f |-> f, c |-> Len(d) \div Size(f), inl |-> Len(d) <= 4,
                      off |-> IF Len(d) <= 4 THEN dirs[k] + 2 + 12 * (j - 1) + 8 ELSE pos[<<"val", k, x, 0, Len(d)>>], d |-> d]
      DataSeq(k) == Concat([j \in DOMAIN seqs[k] |->
                      LET x == seqs[k][j] IN IF x \in OffTags /\ ~IsSub(k, x)
                        THEN [m \in DOMAIN Rec1(k, x).d |-> [x |-> x, off |-> DataAt(k, x, m), len |-> DataLen(Rec1(k, x).d[m]), h |-> Rec1(k, x).d[m]]] ELSE <<>>])
      Dir(i) == LET k == ds[i] IN
                [n |-> k[1], g |-> k[2], off |-> dirs[k], end |-> dirs[k] + size[k],
                 next |-> IF k[2] = 1 /\ <<k[1] + 1, 1>> \in Dirs THEN dirs[<<k[1] + 1, 1>>] ELSE 0,
                 ents |-> [j \in DOMAIN seqs[k] |-> Entry(k, j)], data |-> DataSeq(k)]
  IN [be |-> be, len |-> LET e == pl[Len(pl)] IN e[2] + e[1][5], p |-> <<>>, ifds |-> [i \in DOMAIN ds |-> Dir(i)]]

----------------------------------------------------------------------------
Init == /\ be \in BOOLEAN
        /\ order = <<>>
        /\ \E k \in 0..MaxTags : \E S \in kSubset(k, UNION {Kinds(n) : n \in Nrs}) : c = UNION S
Layout == /\ Mode = "lay" /\ order = <<>> /\ Len(Blocks) <= 6
          /\ \E p \in [1..Len(Blocks) -> 1..Len(Blocks)] : IsInj(p) /\ order' = p
          /\ UNCHANGED <<c, be>>
Spec == Init /\ [][Layout]_vars

Default == [i \in 1..Len(Blocks) |-> i]
Good(G) == Inside(G) /\ Disjoint(G) /\ Ascending(G) /\ InlineRule(G) /\ PointerRule(G) /\ ChainRule(G) /\ AllStored(G, c) /\ NothingElse(G, c)
Here == Graph(IF order = <<>> THEN Default ELSE order)

Right == LET G == Here IN /\ Good(G)
                         /\ Required(G) = c /\ ~MayFail(G) /\ DecodesTo(G, c)

(* single faults *)
Ents(G) == {<<k, j>> \in (DOMAIN G.ifds) \X (1..20) : j \in DOMAIN G.ifds[k].ents}
SetEnt(G, q, e) == [G EXCEPT !.ifds[q[1]].ents[q[2]] = e]
Sensitive ==
  order = <<>> =>
  LET G == Here IN
  \A q \in Ents(G) :
    LET i == G.ifds[q[1]]
        e == i.ents[q[2]]
        Lost == [G EXCEPT !.ifds[q[1]].ents = RemoveAt(@, q[2])]
        Twice == [G EXCEPT !.ifds[q[1]].ents = InsertAt(@, q[2], e)]
    IN /\ ~Good(Twice)
       /\ IsPtr(i, e) \/ ~Good(Lost)
       /\ ~Good(SetEnt(G, q, [e EXCEPT !.f = 1 + (@ % 12)]))
       /\ ~Good(SetEnt(G, q, [e EXCEPT !.x = @ + 1]))
       /\ e.d = <<>> \/ IsPtr(i, e) \/ e.x \in OffTags \/ ~Good(SetEnt(G, q, [e EXCEPT !.d = [@ EXCEPT ![1] = (@ + 1) % 256]]))
       /\ e.inl \/ ~Good(SetEnt(G, q, [e EXCEPT !.off = G.len - 1]))
       /\ e.inl \/ ~Good(SetEnt(G, q, [e EXCEPT !.off = i.off]))
       /\ ~Good(SetEnt(G, q, [e EXCEPT !.inl = ~@]))
       \* the other byte order shows
       /\ \/ IsPtr(i, e) \/ e.x \in OffTags \/ Width(e.f) = 1 \/ Flip(e.f, e.d) = e.d
          \/ ~Good(SetEnt(G, q, [e EXCEPT !.d = Flip(e.f, @)]))

Items == LET s == SetToSortSeq(c, LAMBDA a, b : a.n < b.n \/ (a.n = b.n /\ (a.g < b.g \/ (a.g = b.g /\ a.x < b.x))))
             D(t) == CASE t = "aaa" -> <<1, 2, 3>> [] t = "bbbbb" -> <<4, 5, 6, 7, 8>> [] t = "cccc" -> <<9, 10, 11, 12>>
         IN [i \in DOMAIN s |-> IF s[i].d = <<>> THEN <<s[i].n, s[i].g, s[i].x, s[i].f, s[i].v>>
                                ELSE <<s[i].n, s[i].g, s[i].x, s[i].f, <<>>, [m \in DOMAIN s[i].d |-> D(s[i].d[m])]>>]
Emit == IF Mode = "obj" THEN PrintT("CASE " \o ToJson([kind |-> "obj", be |-> be, c |-> Items]))
        ELSE order # <<>> => PrintT("CASE " \o ToJson([kind |-> "blk", be |-> be, c |-> Items, lay |-> [order |-> order, nul |-> TRUE]]))
=============================================================================
