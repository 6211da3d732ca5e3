----------------------------- MODULE Container -----------------------------
(***************************************************************************)
(* What little_exif may do to an image.                                    *)
(*                                                                         *)
(* An image is a sequence of units, the smallest parts the container      *)
(* format knows (JPEG segments, PNG chunks, RIFF chunks, JXL / HEIF boxes  *)
(* and items, TIFF pages).  A unit is a triple <<kind, content, aux>>;     *)
(* content is an identity (digest or payload name).  A unit of kind        *)
(* "EXIF" is a carrier; its content is the name of the metadata payload    *)
(* it holds.  Aux is format dependent: for a PNG "XMP" unit the number of  *)
(* EXIF items inside the packet, for a WebP "VP8X" unit the feature flags  *)
(* (without the EXIF flag), for a WebP "DIM" unit whether the bitstream    *)
(* declares an alpha channel.                                              *)
(*                                                                         *)
(* The operations are modelled as in the library: a write first clears the *)
(* image and then inserts one carrier; a clear removes all carriers.       *)
(* Everything that is not a carrier has to survive in order, up to the     *)
(* changes named in AfterWrite / AfterClear.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Kind(u) == u[1]
Cont(u) == u[2]
Aux(u)  == u[3]
Unit(k, c, x) == <<k, c, x>>

IsCarrier(u) == Kind(u) = "EXIF"
(* Fill bytes between JPEG markers carry no content. *)
IsFiller(u)  == Kind(u) = "FILL"
Carriers(us) == [i \in 1..Len(SelectSeq(us, IsCarrier)) |-> Cont(SelectSeq(us, IsCarrier)[i])]
Rest(us)     == SelectSeq(us, LAMBDA u : ~IsCarrier(u) /\ ~IsFiller(u))
HasKind(us, k)  == \E i \in DOMAIN us : Kind(us[i]) = k
TheKind(us, k)  == us[CHOOSE i \in DOMAIN us : Kind(us[i]) = k]
DropKind(us, k) == SelectSeq(us, LAMBDA u : Kind(u) # k)

----------------------------------------------------------------------------
(* Format specific effects on the part of the image that is not EXIF       *)

(* PNG: EXIF items inside an XMP packet are metadata as well; both writing *)
(* and clearing filter them out and leave the rest of the packet alone.    *)
FilterXmp(us) == [i \in DOMAIN us |-> IF Kind(us[i]) = "XMP" THEN Unit("XMP", Cont(us[i]), 0) ELSE us[i]]

(* WebP: only the extended format can carry EXIF.  A simple file gets a    *)
(* VP8X chunk in front; canvas size and alpha flag come from the bitstream.*)
AlphaFlag == 16
Extended(us) ==
  IF HasKind(us, "VP8X") \/ ~HasKind(us, "DIM") THEN us
  ELSE LET dim == TheKind(us, "DIM") IN
       <<Unit("VP8X", Cont(dim), IF Aux(dim) = 1 THEN AlphaFlag ELSE 0)>> \o us

(* JPEG XL: a bare codestream becomes the content of a jxlc box.           *)
Boxed(us) == IF us # <<>> /\ Kind(us[1]) = "CS" /\ Len(us) = 1
             THEN <<Unit("JXL", "sig", 0), Unit("ftyp", "jxl", 0), us[1]>>
             ELSE us

(* TIFF: the metadata describe the whole file, nothing may be left over.   *)
AfterWrite(fmt, rest) ==
  CASE fmt = "PNG"  -> FilterXmp(rest)
    [] fmt = "TIFF" -> <<>>
    [] fmt = "WEBP" -> Extended(rest)
    [] fmt = "JXL"  -> Boxed(rest)
    [] OTHER        -> rest

AfterClear(fmt, rest) ==
  CASE fmt = "PNG" -> FilterXmp(rest)
    [] fmt = "TIFF" -> <<>>
    [] OTHER       -> rest

AfterClearSeg(rest, k) == DropKind(rest, k)

----------------------------------------------------------------------------
(* Where a carrier may be                                                  *)

FirstIdx(us, ks) == LET s == {i \in DOMAIN us : Kind(us[i]) \in ks} IN
                    IF s = {} THEN Len(us) + 1 ELSE CHOOSE i \in s : \A j \in s : i <= j
LastIdx(us, ks)  == LET s == {i \in DOMAIN us : Kind(us[i]) \in ks} IN
                    IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i >= j

PosOK(fmt, us, i) ==
  CASE fmt = "JPEG" -> i > FirstIdx(us, {"SOI"}) /\ i < FirstIdx(us, {"SOS", "MC0", "MC2"})
    [] fmt = "PNG"  -> i > FirstIdx(us, {"IHDR"}) /\ i < FirstIdx(us, {"IEND"})
    [] fmt = "WEBP" -> i > LastIdx(us, {"VP8X", "ICCP", "ANIM", "ALPH", "VP8", "VP8L", "ANMF"})
    [] fmt = "JXL"  -> i > FirstIdx(us, {"ftyp"})
    [] OTHER        -> TRUE
CarriersPlaced(fmt, us) == \A i \in DOMAIN us : IsCarrier(us[i]) => PosOK(fmt, us, i)

----------------------------------------------------------------------------
(* Abstract image state: the part that is not EXIF, and the carriers       *)

Image(us) == [rest |-> Rest(us), carr |-> Carriers(us)]

WriteOf(fmt, st, m) == [rest |-> AfterWrite(fmt, st.rest), carr |-> <<m>>]
ClearOf(fmt, st)    == [rest |-> AfterClear(fmt, st.rest), carr |-> <<>>]
(* HEIF: the EXIF item stays, reduced to the tags needed to show the image *)
(* TIFF: the image is its metadata, what describes the pixels stays.       *)
(* red maps a payload to what is left of it; other formats lose it.        *)
Reducing == {"HEIF", "TIFF"}
ClearWith(fmt, st, red) ==
  IF fmt \in Reducing
  THEN [rest |-> AfterClear(fmt, st.rest),
        carr |-> [i \in DOMAIN st.carr |-> IF st.carr[i] \in DOMAIN red THEN red[st.carr[i]] ELSE IF st.carr[i] = "e0" THEN "empty" ELSE st.carr[i]]]
  ELSE ClearOf(fmt, st)
(* Where a tag is: <<directory number, group, tag>>, group 1 is GENERIC.   *)
Display == {274, 282, 283, 296}
Pixels  == {256, 257, 258, 259, 262, 273, 277, 278, 279, 282, 283, 296, 320, 513, 514}
Kept(fmt, S) == IF fmt = "HEIF" THEN {t \in S : t[1] = 0 /\ t[2] = 1 /\ t[3] \in Display}
                ELSE {t \in S : t[2] = 1 /\ t[3] \in Pixels}
(* Without these a TIFF file cannot be shown; the library refuses to write *)
(* metadata that lacks one of them.                                        *)
Required == {256, 257, 259, 262, 273, 278, 279, 282, 283, 296}
Showable(S) == \A x \in Required : \E t \in S : t[2] = 1 /\ t[3] = x
ClearSegOf(st, k)   == [rest |-> AfterClearSeg(st.rest, k), carr |-> st.carr]

(* A block of n bytes fits into one APP1 segment if the length field of    *)
(* two bytes can count itself, the EXIF header of six bytes and the block. *)
(* A JPEG write of a larger one has to fail.                               *)
Oversize(n) == n + 8 > 65535
MayFail(fmt, op, n, rest) ==
  \/ fmt = "JPEG" /\ op \in {"write", "edit"} /\ Oversize(n)
  \* a bare JPEG XL codestream cannot hold metadata, clearing it is refused
  \/ fmt = "JXL" /\ op = "clear" /\ Len(rest) = 1 /\ Kind(rest[1]) = "CS"
  \* EXIF of a HEIF image in several parts or inside of the meta box
  \/ fmt = "HEIF" /\ op \in {"write", "edit", "clear"} /\ HasKind(rest, "XEXIF")
  \* item tables without room for the position or the length of an item
  \/ fmt = "HEIF" /\ op \in {"write", "edit"} /\ HasKind(rest, "ILOC0")
  \* whether an XMP packet holds EXIF items cannot be told if it is damaged
  \/ fmt = "PNG" /\ op \in {"write", "edit", "clear"} /\ HasKind(rest, "XMPBAD")

(* What reading an image may report: the content of one of its carriers    *)
(* (the payload "e0" is the empty one), or that there is none.             *)
ContentOf(m) == IF m = "e0" THEN "empty" ELSE m
ReadOK(carr, r) ==
  IF carr = <<>> THEN r \in {"err", "empty"}
  ELSE \E i \in DOMAIN carr : r = ContentOf(carr[i]) \/ (carr[i] \in {"e0", "empty"} /\ r \in {"err", "empty"})
=============================================================================
