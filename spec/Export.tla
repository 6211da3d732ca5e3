------------------------------- MODULE Export -------------------------------
(***************************************************************************)
(* How an EXIF block is framed for each format, as byte sequences: the     *)
(* JPEG APP1 segment, the WebP EXIF chunk, the HEIF item, and for PNG the  *)
(* raw profile text (PNG0) or the zTXt chunk around it (PNG1).  Frame      *)
(* builds a frame, Unframe takes it apart; zlib streams stay opaque, their *)
(* content is passed in beside them.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Carried == {"JPEG", "PNG1", "PNG0", "WEBP", "HEIF"}
Refused == {"JXL", "TIFF", "NJXL"}

ExifW == <<69, 120, 105, 102>>
ExifUpper == <<69, 88, 73, 70>>
Header == ExifW \o <<0, 0>>
Keyword == <<82, 97, 119, 32, 112, 114, 111, 102, 105, 108, 101, 32, 116, 121, 112, 101, 32, 101, 120, 105, 102>>
ZTXt == <<122, 84, 88, 116>>
BE(n, w) == [i \in 1..w |-> (n \div (256 ^ (w - i))) % 256]
LE(n, w) == [i \in 1..w |-> (n \div (256 ^ (i - 1))) % 256]
FromBE(b) == FoldLeft(LAMBDA a, x : a * 256 + x, 0, b)
Bad == [ok |-> FALSE, b |-> <<>>]
Good(b) == [ok |-> TRUE, b |-> b]
Starts(b, p) == Len(b) >= Len(p) /\ SubSeq(b, 1, Len(p)) = p
Rest(b, n) == SubSeq(b, n + 1, Len(b))

(* raw profile text: newline, name, newline, length, newline, hex digits *)
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex(b) == [i \in 1..2 * Len(b) |-> IF (i % 2) = 1 THEN Digit(b[(i + 1) \div 2] \div 16) ELSE Digit((b[i \div 2]) % 16)]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Padded(s) == [i \in 1..8 - Len(s) |-> 32] \o s
Raw(t) == LET p == Append(Header \o t, 0) IN <<10, 101, 120, 105, 102, 10>> \o Padded(Dec(Len(p))) \o <<10>> \o Hex(p) \o <<10>>

Value(d) == CASE d \in 48..57 -> d - 48 [] d \in 97..102 -> d - 87 [] d \in 65..70 -> d - 55 [] OTHER -> 16
Unraw(t) ==
  LET nl == SelectSeq([i \in DOMAIN t |-> i], LAMBDA i : t[i] = 10)
  IN IF Len(nl) < 4 \/ nl[1] # 1 \/ SubSeq(t, 2, nl[2] - 1) # <<101, 120, 105, 102>> THEN Bad
     ELSE LET num == SelectSeq(SubSeq(t, nl[2] + 1, nl[3] - 1), LAMBDA c : c # 32)
              hex == SelectSeq(Rest(t, nl[3]), LAMBDA c : c # 10)
              n == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, num)
              b == [i \in 1..Len(hex) \div 2 |-> Value(hex[2 * i - 1]) * 16 + Value(hex[2 * i])]
          IN IF \/ Len(num) \notin 1..8 \/ \E i \in DOMAIN num : num[i] \notin 48..57
                \/ Len(hex) # 2 * n \/ \E i \in DOMAIN hex : Value(hex[i]) = 16 \/ ~Starts(b, Header)
             THEN Bad ELSE Good(Rest(b, 6))

Fits(f, t) == f # "JPEG" \/ Len(t) + 8 <= 65535
Frame(f, t) ==
  CASE f = "JPEG" -> <<255, 225>> \o BE(Len(t) + 8, 2) \o Header \o t
    [] f = "WEBP" -> ExifUpper \o LE(Len(t), 4) \o t \o (IF (Len(t) % 2) = 1 THEN <<0>> ELSE <<>>)
    [] f = "HEIF" -> BE(6, 4) \o Header \o t
    [] f = "PNG0" -> Raw(t)
    [] f = "PNG1" -> ZTXt \o Keyword \o <<0, 0>>
(* text is the content of the compressed part of a PNG1 frame *)
Unframe(f, b, text) ==
  CASE f = "JPEG" -> IF Starts(b, <<255, 225>>) /\ Len(b) >= 10 /\ SubSeq(b, 3, 4) = BE(Len(b) - 2, 2) /\ SubSeq(b, 5, 10) = Header THEN Good(Rest(b, 10)) ELSE Bad
    [] f = "WEBP" -> IF Len(b) < 8 \/ (Len(b) % 2) = 1 \/ ~Starts(b, ExifUpper) THEN Bad
                     ELSE LET n == FromBE(Reverse(SubSeq(b, 5, 8))) IN
                          IF (n = Len(b) - 8) \/ (n = Len(b) - 9 /\ b[Len(b)] = 0) THEN Good(SubSeq(b, 9, 8 + n)) ELSE Bad
    [] f = "HEIF" -> IF Len(b) < 4 \/ FromBE(SubSeq(b, 1, 4)) > Len(b) - 4 THEN Bad ELSE Good(Rest(b, 4 + FromBE(SubSeq(b, 1, 4))))
    [] f = "PNG0" -> Unraw(b)
    [] f = "PNG1" -> IF Starts(b, ZTXt \o Keyword \o <<0, 0>>) THEN Unraw(text) ELSE Bad
(* a block may be followed by padding *)
Holds(x, t) == x.ok /\ Starts(x.b, t) /\ Len(x.b) <= Len(t) + 1 /\ \A i \in Len(t) + 1..Len(x.b) : x.b[i] = 0
=============================================================================
