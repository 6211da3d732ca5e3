--------------------------- MODULE RationalTrace ---------------------------
(* Recorded conversions against Rational.                                    *)
EXTENDS Rational, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
T == Traces[tr]
Cl(c, name) == IF c THEN {} ELSE {name}

(* float to rational; max is the largest nominator *)
From(e, max, signed) ==
  IF e.x.c = "nan" THEN Cl(e.n = <<>> /\ e.d = <<>>, "NAN")
  ELSE Cl(e.neg = (signed /\ e.x.s /\ e.n # <<>>), "SIGN")
       \cup Cl(e.d # <<>> /\ Cmp(e.n, max) <= 0 /\ Cmp(e.d, MaxI) <= 0, "RANGE")
       \cup (IF e.x.c = "inf" \/ Above(e.x, max) THEN Cl(e.n = max /\ e.d = One, "SATURATE")
             ELSE Cl(Near(e.x, e.n, e.d), "NEAR") \cup Cl(Coprime(e.n, e.d, e.w), "LOWEST"))
       \cup (IF e.ex = <<>> THEN {} ELSE LET g == Gcd(e.ex[1], e.ex[2]) IN Cl(e.n = Nat2(e.ex[1] \div g) /\ e.d = Nat2(e.ex[2] \div g), "EXACT"))
(* integer to rational; v is the integer's magnitude *)
Whole(e, max) == IF Cmp(e.v, max) <= 0 THEN Cl(e.n = e.v /\ e.d = One /\ e.neg = (e.vneg /\ e.v # <<>>), "WHOLE") ELSE Cl(e.n = max /\ e.d = One, "SATURATE")
(* rational to float *)
Back(e) ==
  IF e.d = <<>> THEN Cl(IF e.n = <<>> THEN e.x.c = "nan" ELSE e.x.c = "inf" /\ e.x.s = e.neg, "BACK")
  ELSE Cl(e.x.c = "fin" /\ (e.n = <<>> \/ e.x.s = (e.neg # e.dneg)) /\ Same(e.x, e.n, e.d), "BACK")
Cut(e) == Cl(IF e.d = <<>> THEN (IF e.n = <<>> \/ e.neg THEN e.v = <<>> ELSE e.v = MaxU)
             ELSE IF e.neg # e.dneg THEN e.v = <<>> ELSE Part(e.v, e.n, e.d), "INT")

Clauses(e) ==
  IF e.res # "ok" THEN {"CRASH"} ELSE
  CASE e.k = "f2u" -> From(e, MaxU, FALSE)
    [] e.k = "f2i" -> From(e, MaxI, TRUE)
    [] e.k = "u2u" -> Whole(e, MaxU)
    [] e.k = "u2i" -> Whole(e, MaxI)
    [] e.k = "i2i" -> Whole(e, IF e.vneg THEN <<0, 0, 128>> ELSE MaxI)
    [] e.k \in {"u2f", "i2f"} -> Back(e)
    [] e.k \in {"u2n", "i2n"} -> Cut(e)

Init == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Step == /\ l < Len(T.ev)
        /\ l' = l + 1
        /\ bad' = Clauses(T.ev[l + 1])
        /\ UNCHANGED tr
Spec == Init /\ [][Step]_vars

Report == bad = {} \/ PrintT("REJECT " \o ToJson([id |-> T.id, l |-> l, bad |-> bad]))
Complete == TLCGet("distinct") = FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
=============================================================================
