------------------------------ MODULE TagTrace ------------------------------
(* Recorded answers of tags and byte conversions against Tag.                *)
EXTENDS Tag, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
T == Traces[tr]
Cl(c, name) == IF c THEN {} ELSE {name}

About(t, a) ==
  Cl(a.x = t.x, "NUMBER") \cup Cl(a.g = GroupOf(t), "GROUP") \cup Cl(a.f = t.f, "TYPE") \cup Cl(a.s = (t.f = STR), "STRING")
  \cup Cl(a.n = CountOf(t), "COUNT") \cup Cl(a.le = BytesOf(t, FALSE) /\ a.be = BytesOf(t, TRUE), "BYTES")
  \cup Cl(a.w = CanWrite(t), "WRITE") \cup Cl(a.u = (t.k = "unknown"), "UNKNOWN") \cup Cl(a.j = Justified(t), "JUSTIFIED")
  \cup Cl(a.to = PointsTo(t) /\ a.data = (t.k \in {"strips", "counts", "thumb", "length"}), "KIND")

(* a page of numbers: exactly the listed ones exist, and are what they are listed as *)
Listing(e) ==
  LET nums == {y \in 256 * e.p .. 256 * e.p + 255 : Listed(e.g, y)}
      got == {e.got[i].x : i \in DOMAIN e.got}
  IN Cl(got = nums /\ Cardinality(got) = Len(e.got), "LISTED")
     \cup UNION {LET a == e.got[i] IN
                 IF a.x \notin nums THEN {} ELSE
                 LET t == Make(e.g, a.x, U8, TRUE, <<>>) IN About(t, a) : i \in DOMAIN e.got}
\* the types, by their codes
Types(e) == Cl(e.types = (IF e.p = 0 THEN [i \in 1..12 |-> <<i, i, Size(i)>>] ELSE <<>>), "TYPES")
\* directories and the tags that point to them
Dirs(e) == Cl(e.dirs = [i \in 1..4 |-> CASE i = 2 -> <<1, 34665, 2>> [] i = 3 -> <<2, 40965, 3>> [] i = 4 -> <<1, 34853, 4>> [] OTHER -> <<0, 0, 0>>], "DIRS")

Clauses(e) ==
  IF e.res \in {"panic", "crash"} THEN {"CRASH"} ELSE
  CASE e.op = "page" -> Listing(e) \cup Types(e) \cup Dirs(e)
    [] e.op = "make" -> IF ~Makeable(e.g, e.x, e.f, e.b) THEN Cl(e.res = "err", "REFUSE")
                        ELSE IF e.res # "ok" THEN {"RES"}
                        ELSE LET t == Make(e.g, e.x, e.f, e.be, e.b) IN
                             Cl(e.v = t.v /\ e.kind = t.k, "VALUE") \cup About(t, e.a)
    [] e.op = "tag"  -> About(e.t, e.a)
    [] e.op = "conv" -> IF (IF e.vec THEN (Len(e.b) % e.w) # 0 ELSE Len(e.b) # e.w) THEN Cl(e.res = "err", "REFUSE")
                        ELSE IF e.res # "ok" THEN {"RES"}
                        ELSE LET v == RawW(e.fw, e.be, e.b) IN Cl(e.v = v, "VALUE") \cup Cl(e.ol = FlipW(e.fw, v) /\ e.ob = v, "BYTES")
    [] e.op = "text" -> IF e.res # "ok" THEN {"RES"} ELSE Cl(e.v = Text(e.b), "VALUE") \cup Cl(e.ol = e.v \o <<0>> /\ e.ob = e.ol, "BYTES")

Init == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Step == /\ l < Len(T.ev)
        /\ l' = l + 1
        /\ bad' = Clauses(T.ev[l + 1])
        /\ UNCHANGED tr
Spec == Init /\ [][Step]_vars

Report == bad = {} \/ PrintT("REJECT " \o ToJson([id |-> T.id, l |-> l, bad |-> bad]))
Complete == TLCGet("distinct") = FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
=============================================================================
