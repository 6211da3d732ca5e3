------------------------------ MODULE FileType ------------------------------
(***************************************************************************)
(* How the format of an image is chosen: file names, leading bytes and     *)
(* what every call does to a file of a given name and content.             *)
(*                                                                         *)
(* A file name is a sequence of bytes.  A file is                          *)
(*   [there |-> "file" | "dir" | "none", fmt |-> content, head |-> first   *)
(*    bytes, m |-> identity of the EXIF in it or "none"]                   *)
(* where fmt is one of the formats, NJXL (a bare JPEG XL codestream, which *)
(* holds no metadata) or "junk".                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Formats == {"JPEG", "PNG", "WEBP", "JXL", "HEIF", "TIFF"}

Exts ==   \* h=104 e=101 i=105 f=102 c=99 a=97 v=118 j=106 p=112 g=103 x=120 l=108 n=110 t=116 w=119 b=98
  { <<"HEIF", <<104,101,105,102>> >>, <<"HEIF", <<104,105,102>> >>, <<"HEIF", <<104,101,105,99>> >>, <<"HEIF", <<97,118,105,102>> >>,
    <<"JPEG", <<106,112,101,103>> >>, <<"JPEG", <<106,112,103>> >>, <<"JXL", <<106,120,108>> >>, <<"PNG", <<112,110,103>> >>,
    <<"TIFF", <<116,105,102,102>> >>, <<"TIFF", <<116,105,102>> >>, <<"WEBP", <<119,101,98,112>> >> }
Lower(s) == [i \in DOMAIN s |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
OfExt(e) == LET l == Lower(e) IN IF \E x \in Exts : x[2] = l THEN (CHOOSE x \in Exts : x[2] = l)[1] ELSE "unsupported"

(* what stands behind the last dot, unless that dot is the first character; *)
(* a name with a byte that is no text has no usable extension              *)
Dots(n) == {i \in DOMAIN n : n[i] = 46}
OfName(n) ==
  IF Dots(n) = {} THEN "noext"
  ELSE LET p == CHOOSE i \in Dots(n) : \A j \in Dots(n) : j <= i IN
       IF p = 1 THEN "noext" ELSE LET e == SubSeq(n, p + 1, Len(n)) IN IF 255 \in ToSet(e) THEN "noext" ELSE OfExt(e)

(* leading bytes; -1 stands for any byte *)
Sig(f, s) == [f |-> f, s |-> s]
Ftyp == <<-1, -1, -1, -1, 102, 116, 121, 112>>
Brands == {<<104,101,105,99>>, <<104,101,105,102>>, <<104,101,105,120>>, <<104,101,105,109>>, <<104,101,105,115>>, <<104,101,118,99>>,
           <<104,101,118,120>>, <<109,105,102,49>>, <<109,115,102,49>>, <<97,118,105,102>>, <<97,118,105,115>>}
Sigs == { Sig("PNG", <<137, 80, 78, 71>>), Sig("JPEG", <<255, 216>>), Sig("TIFF", <<73, 73, 42, 0>>), Sig("TIFF", <<77, 77, 0, 42>>),
          Sig("WEBP", <<82, 73, 70, 70, -1, -1, -1, -1, 87, 69, 66, 80>>), Sig("NJXL", <<255, 10>>),
          Sig("JXL", <<0, 0, 0, 12, 74, 88, 76, 32, 13, 10, 135, 10>>) } \cup {Sig("HEIF", Ftyp \o b) : b \in Brands}
Fits(h, s) == Len(h) >= Len(s) /\ \A i \in DOMAIN s : s[i] = -1 \/ s[i] = h[i]
Detect(h) ==
  IF Len(h) < 4 \/ ~\E x \in Sigs : Fits(h, x.s) THEN "none" ELSE (CHOOSE x \in Sigs : Fits(h, x.s)).f

(* whether the code for format f can work on content c *)
Takes(f, c)  == (f = c /\ f \in Formats) \/ (f = "JXL" /\ c = "NJXL")
Reads(f, c)  == f = c /\ f \in Formats
Clears(f, c) == f = c /\ f \in Formats

(* The outcome of a call: r = ok | err, u = error kind that has to be      *)
(* reported or "", got = metadata returned, file = file afterwards.  may   *)
(* marks the one call that is left open: a TIFF file is written as a whole,*)
(* whatever was there before.                                              *)
Ok(file)       == [r |-> "ok", u |-> "", got |-> "", file |-> file, may |-> FALSE]
Got(file, m)   == IF m = "none" THEN [r |-> "none", u |-> "", got |-> "", file |-> file, may |-> FALSE]
                  ELSE [r |-> "ok", u |-> "", got |-> m, file |-> file, may |-> FALSE]
Err(file)      == [r |-> "err", u |-> "", got |-> "", file |-> file, may |-> FALSE]
Unsup(file)    == [r |-> "err", u |-> "Unsupported", got |-> "", file |-> file, may |-> FALSE]
None(file)     == [r |-> "none", u |-> "", got |-> "", file |-> file, may |-> FALSE]
Open(file)     == [r |-> "err", u |-> "", got |-> "", file |-> file, may |-> TRUE]

ReadPath(n, s) ==
  LET f == OfName(n)  d == Detect(s.head)  eff == IF d # "none" THEN d ELSE f
  IN IF s.there # "file" THEN Err(s)
     ELSE IF f = "unsupported" THEN Unsup(s)
     ELSE IF Reads(eff, s.fmt) THEN Got(s, s.m)
     ELSE IF eff \in Formats THEN None(s)
     ELSE Err(s)
ReadVec(f, s)  == IF Reads(f, s.fmt) THEN Got(s, s.m) ELSE IF f \in Formats THEN None(s) ELSE Err(s)

WriteAs(f, s, m) ==
  IF Takes(f, s.fmt) THEN Ok([s EXCEPT !.fmt = f, !.m = m])
  ELSE IF f = "TIFF" THEN Open(s) ELSE Err(s)
ClearAs(f, s)    == IF Clears(f, s.fmt) THEN Ok([s EXCEPT !.m = "cleared"]) ELSE Err(s)
SegmentAs(f, s)  == IF f = "JPEG" /\ s.fmt = "JPEG" THEN Ok(s) ELSE Err(s)
OnPath(n, s, act(_)) ==
  LET f == OfName(n) IN
  IF s.there = "none" \/ f = "noext" THEN Err(s)
  ELSE IF f = "unsupported" THEN Unsup(s)
  ELSE IF s.there = "dir" THEN Err(s)
  ELSE act(f)
TypeOfPath(n, s) ==
  LET f == OfName(n) IN
  IF s.there = "none" \/ f = "noext" THEN Err(s) ELSE IF f = "unsupported" THEN Unsup(s) ELSE [Ok(s) EXCEPT !.got = f]

(* one call on the file s under the name n; PNG0 is PNG with another way of exporting *)
Decl(t) == IF t = "PNG0" THEN "PNG" ELSE t
Call(c, n, s) ==
  CASE c.o = "R" -> ReadPath(n, s)
    [] c.o = "W" -> OnPath(n, s, LAMBDA f : WriteAs(f, s, c.a))
    [] c.o = "C" -> OnPath(n, s, LAMBDA f : ClearAs(f, s))
    [] c.o \in {"C12", "C13"} -> OnPath(n, s, LAMBDA f : SegmentAs(f, s))
    [] c.o = "G" -> TypeOfPath(n, s)
    [] c.o = "D" -> [Ok(s) EXCEPT !.got = Detect(s.head)]
    [] c.o = "V" -> ReadVec(Decl(c.t), s)
    [] c.o = "X" -> WriteAs(Decl(c.t), s, c.a)
    [] c.o = "Y" -> ClearAs(Decl(c.t), s)
    [] c.o = "Z" -> SegmentAs(Decl(c.t), s)
    [] c.o = "S" -> LET f == OfExt(c.n) IN IF f = "unsupported" THEN Unsup(s) ELSE [Ok(s) EXCEPT !.got = f]
    [] c.o = "N" -> Ok(s)
=============================================================================
