------------------------------- MODULE Robust -------------------------------
(***************************************************************************)
(* What an operation may do when the image is not what it claims to be.    *)
(*                                                                         *)
(* An observation of one call is                                           *)
(*   [res, same, h, rd, peak]    res: ok, err or how the call died         *)
(*   same: the target has the bytes it had   h: digest of the target       *)
(*   rd: what was read           peak: memory used by the call, in KiB     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Answers(o) == o.res \in {"ok", "err"}
(* a failing call has no effect, reading has none at all                   *)
Untouched(op, o) == (op = "read" \/ o.res = "err") => o.same
(* memory in proportion to the image: a constant for buffers and tables of *)
(* decompressors and a factor for copies and their representation as tags  *)
Constant == 12288
Factor == 400
Frugal(len, o) == o.peak <= Constant + (Factor * len) \div 1024
(* both interfaces give the same; when reading a path the content decides  *)
(* the type, in memory the declared type does; no extension stands for a   *)
(* bare codestream                                                         *)
SameType(declared, det) == det = declared \/ det = "" \/ (declared \in {"PNG", "PNGI"} /\ det = "PNG")
Agree(op, declared, det, a, b) ==
  (declared # "NAKED" /\ (op # "read" \/ SameType(declared, det))) =>
     /\ a.res = b.res
     /\ a.h = b.h
     /\ a.rd = b.rd
=============================================================================
