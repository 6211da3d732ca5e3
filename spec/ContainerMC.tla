---------------------------- MODULE ContainerMC ----------------------------
(***************************************************************************)
(* The container algorithms of the library on sequences of units, checked  *)
(* against the abstract effects of Container.tla for every image of a      *)
(* bounded grammar and every bounded history of operations.  The completed *)
(* behaviours are also the test cases: each one is printed and replayed    *)
(* into the real library (ContainerTrace judges the recording).            *)
(***************************************************************************)
EXTENDS Container, TLC, Json, IOUtils

Fmt      == IOEnv.FMT
MaxShape == atoi(IOEnv.MAXSHAPE)
MaxOps   == atoi(IOEnv.MAXOPS)
\* one in Stride behaviours is printed as a test case
Stride   == atoi(IOEnv.STRIDE)
Phase    == atoi(IOEnv.PHASE)

----------------------------------------------------------------------------
(* Images.  A token is <<name, payload>>, the vocabulary of the harness.   *)

Tok(k) == <<k, "">>
Ex(k, m) == <<k, m>>
TokName(t) == IF t[2] = "" THEN t[1] ELSE t[1] \o ":" \o t[2]

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}

JpegShapes ==
  {s \o t : s \in Seqs({Tok("APP0"), Tok("XMP"), Tok("APP12"), Tok("APP13"), Tok("FILL"), Tok("COM"), Ex("EXIF", "o1"), Ex("EXIF", "o2")}, MaxShape),
            t \in {<<>>, <<Tok("PROG"), Tok("TRAIL")>>}}
PngShapes ==
  LET body == Seqs({Tok("gAMA"), Tok("TXT"), Tok("XMPI"), Tok("XMPZ"), Tok("IDAT"), Ex("eXIf", "o1"), Ex("zEXIF", "o2"), Ex("tEXIF", "o1")}, MaxShape)
  IN {s \in body : Len(SelectSeq(s, LAMBDA t : t[1] = "IDAT")) <= 1}
WebpShapes ==
  {<<Tok("LOSSY")>>, <<Tok("LOSSLESS")>>}
  \cup {<<Tok("X")>> \o icc \o img \o t :
          icc \in {<<>>, <<Tok("ICCP")>>},
          img \in {<<Tok("VP8")>>, <<Tok("ALPH"), Tok("VP8")>>, <<Tok("VP8L")>>, <<Tok("ANIM"), Tok("ANMF"), Tok("ANMF")>>},
          t \in Seqs({Tok("XMP"), Tok("UNK"), Ex("EXIF", "o1"), Ex("EXIF", "o2")}, MaxShape)}
JxlShapes ==
  {<<Tok("NAKED")>>}
  \cup {s \o <<cs>> \o t :
          s \in Seqs({Tok("jxll"), Tok("empt"), Tok("bxml"), Ex("EXIF", "o1"), Ex("BEXIF", "o2")}, MaxShape),
          cs \in {Tok("jxlc"), Tok("jxlp"), Tok("jxlc64")},
          t \in {<<>>, <<Ex("EXIF", "o2")>>, <<Tok("xml")>>}}
  \cup {s \o <<Tok("jxlc0")>> : s \in Seqs({Tok("jxll"), Ex("EXIF", "o1"), Ex("BEXIF", "o2")}, MaxShape)}
\* TIFF: how the blocks of the file are laid out (HEIF has its own module)
TiffShapes ==
  {<<Ex("EXIF", m)>> \o SetToSeq({Tok(t) : t \in F}) :
      m \in {"o1", "n1"}, F \in {F \in SUBSET {"SHUF", "GAPS", "ODD", "SHARE", "SHORT", "JUNK", "TAIL"} : Cardinality(F) <= MaxShape}}

Shapes ==
  CASE Fmt = "JPEG" -> JpegShapes
    [] Fmt = "PNG"  -> PngShapes
    [] Fmt = "WEBP" -> WebpShapes
    [] Fmt = "JXL"  -> JxlShapes
    [] Fmt = "TIFF" -> TiffShapes

IsExTok(t) == t[2] # ""
UnitOf(t, i) ==
  IF IsExTok(t) THEN Unit("EXIF", t[2], 0)
  ELSE IF Fmt = "PNG" /\ t[1] \in {"XMPI", "XMPZ"} THEN Unit("XMP", i, 2)
  ELSE Unit(t[1], i, 0)
Body(s) == [i \in DOMAIN s |-> UnitOf(s[i], i)]
ImageOf(s) ==
  CASE Fmt = "JPEG" -> <<Unit("SOI", 0, 0)>> \o SelectSeq(Body(s), LAMBDA u : Kind(u) \notin {"PROG", "TRAIL"})
                       \o <<Unit("MDB", 0, 0), Unit("MC0", 0, 0), Unit("SOS", 0, 0), Unit("EOI", 0, 0)>>
    [] Fmt = "PNG"  -> <<Unit("IHDR", 0, 0)>> \o Body(s) \o <<Unit("IEND", 0, 0)>>
    [] Fmt = "WEBP" -> IF s[1][1] = "LOSSY" THEN <<Unit("VP8", 0, 0), Unit("DIM", "wxh", 0)>>
                       ELSE IF s[1][1] = "LOSSLESS" THEN <<Unit("VP8L", 0, 0), Unit("DIM", "wxh", 1)>>
                       ELSE <<Unit("VP8X", "wxh", 0)>> \o Body(Tail(s))
    [] Fmt = "JXL"  -> IF s[1][1] = "NAKED" THEN <<Unit("CS", 0, 0)>>
                       ELSE <<Unit("JXL", "sig", 0), Unit("ftyp", "jxl", 0)>> \o Body(s)
    [] Fmt = "TIFF" -> SelectSeq(Body(s), LAMBDA u : Kind(u) \in {"EXIF", "TAIL"})

----------------------------------------------------------------------------
(* The algorithms                                                          *)

RECURSIVE RemoveFrom(_, _)
(* walk over the units and cut out every carrier met on the way *)
RemoveFrom(us, i) ==
  IF i > Len(us) THEN us
  ELSE IF IsCarrier(us[i]) THEN RemoveFrom(SubSeq(us, 1, i - 1) \o SubSeq(us, i + 1, Len(us)), i)
  ELSE RemoveFrom(IF Fmt = "PNG" /\ Kind(us[i]) = "XMP" THEN [us EXCEPT ![i] = Unit("XMP", Cont(us[i]), 0)] ELSE us, i + 1)
\* what is left of a payload when a TIFF file is cleared
Names == {"o1", "n1", "m1", "m2", "m3"} \cup {"e" \o ToString(n) : n \in 0..9}
Left == [m \in Names \cup {"r." \o n : n \in Names} |-> IF m \in Names THEN "r." \o m ELSE m]
\* a TIFF file is decoded, reduced and encoded again from its beginning
Reencode(us) == [i \in {1} |-> LET c == us[CHOOSE j \in DOMAIN us : IsCarrier(us[j])] IN Unit("EXIF", Left[Cont(c)], 0)]
DoClear(us) == IF Fmt = "TIFF" THEN Reencode(us) ELSE RemoveFrom(us, 1)

PreExif == {"VP8X", "VP8", "VP8L", "ICCP", "ANIM", "ANMF", "ALPH"}
RECURSIVE JxlPos(_, _)
JxlPos(us, i) == IF i <= Len(us) /\ Kind(us[i]) \in {"JXL", "ftyp"} THEN JxlPos(us, i + 1) ELSE i - 1
(* number of units in front of the new carrier *)
InsertAfter(us) ==
  CASE Fmt \in {"JPEG", "PNG"} -> 1
    [] Fmt = "WEBP" -> LastIdx(us, PreExif)
    [] Fmt = "JXL"  -> JxlPos(us, 1)
DoInsert(us, m) == LET k == InsertAfter(us) IN SubSeq(us, 1, k) \o <<Unit("EXIF", m, 0)>> \o SubSeq(us, k + 1, Len(us))
Convert(us) ==
  CASE Fmt = "WEBP" -> Extended(us)
    [] Fmt = "JXL"  -> Boxed(us)
    [] OTHER        -> us
DoWrite(us, m) == IF Fmt = "TIFF" THEN <<Unit("EXIF", m, 0)>> ELSE DoInsert(Convert(DoClear(us)), m)
DoClearSeg(us, k) == DropKind(us, k)

----------------------------------------------------------------------------
VARIABLES shape, us, ops, pre
vars == <<shape, us, ops, pre>>

\* metadata without one of the tags a TIFF page needs, refused by the library
Lacking == {"W:u" \o ToString(k) : k \in 0..9}
Ops == {"W:m1", "W:m2", "C", "E"} \cup (IF Fmt = "JPEG" THEN {"C12", "C13"} ELSE IF Fmt = "TIFF" THEN Lacking ELSE {})
Payload(op, n) == CASE op = "W:m1" -> "m1" [] op = "W:m2" -> "m2" [] OTHER -> "e" \o ToString(n)
Apply(op, x, n) ==
  CASE op = "C"   -> IF MayFail(Fmt, "clear", 0, Rest(x)) THEN x ELSE DoClear(x)
    [] op = "C12" -> DoClearSeg(x, "APP12")
    [] op = "C13" -> DoClearSeg(x, "APP13")
    [] op \in Lacking -> x
    [] OTHER      -> DoWrite(x, Payload(op, n))

Init == /\ shape \in Shapes
        /\ us = ImageOf(shape)
        /\ ops = <<>>
        /\ pre = us
Next == /\ Len(ops) < MaxOps
        /\ \E op \in Ops :
             /\ us'  = Apply(op, us, Len(ops))
             /\ ops' = Append(ops, op)
        /\ pre' = us
        /\ UNCHANGED shape
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Op == ops[Len(ops)]
Wrote == ops # <<>> /\ Op \notin {"C", "C12", "C13"} \cup Lacking

(* every algorithm has exactly the abstract effect *)
Refines ==
  ops # <<>> =>
    LET s == Image(pre) IN
    Image(us) =
      (CASE Op = "C"   -> IF MayFail(Fmt, "clear", 0, s.rest) THEN s ELSE ClearWith(Fmt, s, Left)
         [] Op = "C12" -> ClearSegOf(s, "APP12")
         [] Op = "C13" -> ClearSegOf(s, "APP13")
         [] Op \in Lacking -> s
         [] OTHER      -> WriteOf(Fmt, s, Payload(Op, Len(ops) - 1)))
Placed     == Wrote => CarriersPlaced(Fmt, us)
OneCarrier == Wrote => Len(Carriers(us)) = 1
NoCarrier  == (ops # <<>> /\ Op = "C" /\ Fmt # "TIFF") => Carriers(us) = <<>>
(* applying the same operation again changes nothing *)
Idempotent == ops # <<>> => Apply(Op, us, Len(ops) - 1) = us
(* what was written before does not matter *)
Forgets    == \A m \in {"m1", "m2"} : DoWrite(us, m) = DoWrite(DoWrite(us, "m3"), m)
                                      /\ (Fmt # "WEBP" => DoWrite(us, m) = DoWrite(DoClear(us), m))
(* clearing after writing restores the image, up to conversion *)
Undo       == \A m \in IF Fmt = "TIFF" THEN {} ELSE {"m1"} : DoClear(DoWrite(us, m)) = Convert(DoClear(us))

Emit == (Len(ops) = MaxOps /\ (TLCGet("distinct") % Stride) = Phase)
        => PrintT("CASE " \o ToJson([fmt |-> Fmt, shape |-> [i \in DOMAIN shape |-> TokName(shape[i])], ops |-> ops]))
=============================================================================
