----------------------------- MODULE RationalMC -----------------------------
(***************************************************************************)
(* The library's approximation of a number by continued fractions, with    *)
(* exact arithmetic and small limits: for every fraction p/q and all       *)
(* limits the result is within the limits, in lowest terms and as close as *)
(* any fraction within the limits.                                         *)
(***************************************************************************)
EXTENDS Rational, Json, IOUtils

MaxP == atoi(IOEnv.MAXP)
MaxQ == atoi(IOEnv.MAXQ)
Limits == {<<7, 7>>, <<15, 7>>, <<31, 15>>}
VARIABLES p, q, lim, a, b, term, c1, c0, n, done, res
vars == <<p, q, lim, a, b, term, c1, c0, n, done, res>>

(* residual a/b >= 0, convergents c1 (latest) and c0 as <<nominator, denominator>> *)
Next1(t) == <<t * c1[1] + c0[1], t * c1[2] + c0[2]>>
Low(f) == LET g == Gcd(f[1], f[2]) IN <<f[1] \div g, f[2] \div g>>
Diff(f) == LET v == p * f[2] - f[1] * q IN IF v < 0 THEN -v ELSE v      \* |p/q - f| * q * f[2]
Closer(f, g) == Diff(f) * g[2] < Diff(g) * f[2]
Finish(t, k) ==
  LET m == IF k > t THEN t ELSE k
      s == Next1(m)
  IN IF 2 * k >= t /\ (2 * m > t \/ Closer(s, c1)) THEN Low(s) ELSE Low(c1)
Room == LET d == (lim[2] - c0[2]) \div c1[2] IN IF c1[1] = 0 THEN d ELSE LET u == (lim[1] - c0[1]) \div c1[1] IN IF u < d THEN u ELSE d

Init == /\ p \in 0..MaxP /\ q \in 1..MaxQ /\ Gcd(p, q) = 1
        /\ lim \in Limits /\ p <= lim[1] * q
        /\ a = p /\ b = q /\ term = p \div q
        /\ c0 = <<1, 0>> /\ c1 = <<p \div q, 1>>
        /\ n = 0 /\ done = FALSE /\ res = <<0, 1>>
Step == /\ ~done
        /\ UNCHANGED <<p, q, lim>>
        /\ IF a = term * b THEN done' = TRUE /\ res' = c1 /\ UNCHANGED <<a, b, term, c1, c0, n>>
           ELSE LET ra == b  rb == a - term * b  t == ra \div rb IN
                /\ a' = ra /\ b' = rb /\ term' = t /\ n' = Room
                /\ IF t >= Room THEN done' = TRUE /\ res' = Finish(t, Room) /\ UNCHANGED <<c1, c0>>
                   ELSE done' = FALSE /\ c0' = c1 /\ c1' = Next1(t) /\ UNCHANGED res
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

Bounded == c1[1] <= lim[1] /\ c1[2] <= lim[2] /\ (done => res[1] <= lim[1] /\ res[2] <= lim[2])
Adjacent == LET v == c1[1] * c0[2] - c0[1] * c1[2] IN v \in {-1, 1}
Lowest == done => res[2] > 0 /\ Gcd(res[1], res[2]) = 1
Exact == done /\ p <= lim[1] /\ q <= lim[2] => res = <<p, q>>
Best == done => \A x \in 0..lim[1], y \in 1..lim[2] : ~Closer(<<x, y>>, res)
(* the digit arithmetic agrees with TLC's own *)
Digits == /\ Times(Nat2(p * 10), Nat2(q * 10)) = Nat2(p * 10 * q * 10)
          /\ Sum(Nat2(p * 4095), Nat2(q)) = Nat2(p * 4095 + q)
          /\ Dist(Nat2(p * 5000), Nat2(q * 7001)) = Nat2(IF p * 5000 > q * 7001 THEN p * 5000 - q * 7001 ELSE q * 7001 - p * 5000)
Terminates == <>done
Emit == ~done \/ lim # <<7, 7>> \/ PrintT("CASE " \o ToJson([p |-> p, q |-> q, k |-> "frac"]))
=============================================================================
