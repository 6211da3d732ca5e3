------------------------------ MODULE Rational ------------------------------
(***************************************************************************)
(* Conversion between floating point numbers and EXIF rationals.           *)
(*                                                                         *)
(* Natural numbers that do not fit into TLC's integers are sequences of    *)
(* digits to the base 4096, least significant first.  A float is           *)
(* (-1)^s * m * 2^e, infinite or not a number.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

B == 4096
D(a, i) == IF i \in DOMAIN a THEN a[i] ELSE 0
MaxOf(x, y) == IF x > y THEN x ELSE y
RECURSIVE Carry(_, _, _)
Carry(a, i, c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c % B>> \o Carry(a, i, c \div B))
                  ELSE <<(a[i] + c) % B>> \o Carry(a, i + 1, (a[i] + c) \div B)
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
Sum(a, b) == Trim(Carry([i \in 1..MaxOf(Len(a), Len(b)) |-> D(a, i) + D(b, i)], 1, 0))
(* column sums stay below 2^31 for up to 100 digits *)
Col(a, b, k) == FoldLeft(LAMBDA s, i : s + D(a, i) * D(b, k + 1 - i), 0, [i \in 1..k |-> i])
Times(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Trim(Carry([k \in 1..Len(a) + Len(b) - 1 |-> Col(a, b, k)], 1, 0))
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF D(a, i) < D(b, i) THEN -1 ELSE IF D(a, i) > D(b, i) THEN 1 ELSE CmpAt(a, b, i - 1)
Cmp(a, b) == CmpAt(a, b, MaxOf(Len(a), Len(b)))
RECURSIVE Borrow(_, _, _, _)
Borrow(a, b, i, c) == IF i > Len(a) THEN <<>> ELSE LET v == a[i] - D(b, i) - c IN <<v % B>> \o Borrow(a, b, i + 1, IF v < 0 THEN 1 ELSE 0)
Minus(a, b) == Trim(Borrow(a, b, 1, 0))
Dist(a, b) == IF Cmp(a, b) >= 0 THEN Minus(a, b) ELSE Minus(b, a)
RECURSIVE Nat2(_)
Nat2(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o Nat2(n \div B)
One == <<1>>
Pow2(k) == [i \in 1..(k \div 12) |-> 0] \o <<2 ^ (k % 12)>>
Billion == Nat2(999999999)     \* a whole billion minus the rounding of the bound itself
MaxU == <<4095, 4095, 255>>
MaxI == <<4095, 4095, 127>>

(* |x| = Up(x) / Dn(x) *)
Up(x) == IF x.e >= 0 THEN Times(x.m, Pow2(x.e)) ELSE x.m
Dn(x) == IF x.e >= 0 THEN One ELSE Pow2(-x.e)
(* | |x| - n/d | <= max(1, |x|) / 10^9 *)
Near(x, n, d) == Cmp(Times(Dist(Times(Up(x), d), Times(n, Dn(x))), Billion), Times(d, IF Cmp(Up(x), Dn(x)) > 0 THEN Up(x) ELSE Dn(x))) <= 0
(* |x| = n/d up to the precision of a float *)
Same(x, n, d) == Cmp(Times(Dist(Times(Up(x), d), Times(n, Dn(x))), Pow2(50)), Times(n, Dn(x))) <= 0
Above(x, max) == Cmp(Up(x), Times(max, Dn(x))) > 0
(* u * n - v * d = 1 shows that n and d have no common factor *)
Coprime(n, d, w) == IF n = <<>> THEN d = One ELSE Cmp(Times(w[1], n), Sum(Times(w[2], d), One)) = 0
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

(* y = the integer part of n/d, at most MaxU *)
Part(y, n, d) == \/ Cmp(Times(y, d), n) <= 0 /\ Cmp(n, Times(Sum(y, One), d)) < 0
                 \/ y = MaxU /\ Cmp(Times(y, d), n) <= 0
=============================================================================
