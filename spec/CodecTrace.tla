----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Recorded decodings, edits and encodings against Codec.                  *)
(*   obj: an object with the given content was built through the API       *)
(*   dec: a block was decoded            enc: the object was encoded       *)
(*   crowd: many tags in one directory, encoded or decoded                 *)
(*   set / rem: one tag of the object was set / removed                    *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, st, bad
vars == <<tr, l, st, bad>>
T == Traces[tr]
Cl(c, name) == IF c THEN {} ELSE {name}

R(a) == [n |-> a[1], g |-> a[2], x |-> a[3], f |-> a[4], v |-> a[5], d |-> a[6]]
Content(s) == {R(s[i]) : i \in DOMAIN s}
\* pointers to directories in an object mean nothing and are not observed
Shown(c) == {r \in c : <<r.g, r.x>> \notin Pointers}
Listed(s)  == Len(s) = Cardinality({<<s[i][1], s[i][2], s[i][3]>> : i \in DOMAIN s})

(* entries of the block that was read which nobody touched are still there,*)
(* bit for bit                                                             *)
Kept(S, G, edited) ==
  \A k \in DOMAIN S.ifds : \A j \in DOMAIN S.ifds[k].ents :
    LET i == S.ifds[k]
        e == i.ents[j]
        free == \/ IsPtr(i, e) \/ <<i.n, i.g, e.x>> \in edited \/ ~Writable(i.g, e.x)
                \/ IsData(e) /\ ~HasEnt(i, Mate(e.x))
                \* conversions are the business of Decode
                \/ IsKnown(i.g, e.x) /\ DefType(i.g, e.x) # e.f
                \/ IsData(e) /\ e.f # U32
    IN free \/ \E m \in DOMAIN G.ifds : /\ G.ifds[m].n = i.n /\ G.ifds[m].g = i.g
                                        /\ \E q \in DOMAIN G.ifds[m].ents :
                                             LET t == G.ifds[m].ents[q] IN
                                             /\ t.x = e.x /\ t.f = e.f
                                             /\ IF e.x \in OffTags THEN DataOf(i, e.x) = DataOf(G.ifds[m], e.x)
                                                ELSE IF e.f = STR THEN t.d = Text(e.d) \o <<0>>
                                                ELSE t.c = e.c /\ Value(S, e) = Value(G, t)

Clauses(e, s) ==
  IF e.res = "crash" THEN {"CRASH"}
  ELSE CASE e.op = "obj" ->
         Cl(Content(e.o) = Shown(Content(e.c)), "OBJ") \cup Cl(Listed(e.o), "TWICE") \cup Cl(e.be = e.wantbe, "ENDIAN")
    [] e.op = "gen" -> {"gen"}
    [] e.op = "cyc" -> {}              \* any result will do
    [] e.op = "crowd" ->              \* n tags in one directory: all of them or none
         IF e.res # "ok" THEN Cl(~Fits(e.n), "RES")
         ELSE Cl(e.cnt = e.n, "LOST") \cup Cl(e.back = e.n, "DEC") \cup Cl(e.p = "", "PARSE")
    [] e.op = "dec" ->
         IF ~Distinct(e.g) THEN
            IF e.res = "ok" THEN Cl(DecodesTo(e.g, Content(e.o)), "DEC") \cup Cl(Listed(e.o) \/ ~PlainDistinct(e.g), "TWICE") \cup Cl(e.be = e.g.be, "ENDIAN") ELSE {}
         ELSE IF e.res = "ok" THEN
            Cl(~MustFail(e.g), "ACCEPT") \cup (IF MustFail(e.g) THEN {} ELSE Cl(DecodesTo(e.g, Content(e.o)), "DEC"))
            \cup Cl(Listed(e.o), "TWICE") \cup Cl(e.be = e.g.be, "ENDIAN")
         ELSE Cl(MayFail(e.g) \/ Entangled(e.g), "REFUSE")
    [] e.op \in {"set", "rem"} ->
         Cl(Content(e.o) = Shown(IF e.op = "set" THEN {r \in s.c : Key(r) # Key(R(e.t))} \cup {R(e.t)} ELSE {r \in s.c : r.g # R(e.t).g \/ r.x # R(e.t).x}), "EDIT")
         \cup Cl(Listed(e.o) \/ s.dup, "TWICE")
    [] e.op = "enc" ->
         IF e.res # "ok" THEN {"RES"}
         ELSE IF e.p # "" THEN {"PARSE"}
         ELSE Cl(e.g.be = s.be, "ENDIAN")
              \cup Cl(Inside(e.g), "INSIDE") \cup Cl(Disjoint(e.g), "OVERLAP") \cup Cl(IF s.dup THEN NotDescending(e.g) ELSE Ascending(e.g), "SORTED")
              \cup Cl(InlineRule(e.g), "INLINE") \cup Cl(PointerRule(e.g), "POINTER") \cup Cl(ChainRule(e.g), "CHAIN")
              \cup Cl(AllStored(e.g, s.c), "LOST") \cup Cl(NothingElse(e.g, s.c), "EXTRA")
              \cup Cl(s.src = 0 \/ Kept(T.ev[s.src].g, e.g, s.edited), "KEEP")
              \cup Cl(e.g.p = <<>>, "ODD")
              \* what is encoded again without a change is the same block
              \cup Cl(s.h = "" \/ s.h = e.h, "STABLE")

After(e, s) ==
  CASE e.res # "ok" \/ e.op \in {"gen", "cyc", "crowd"} -> s
    [] e.op = "obj"  -> [c |-> Content(e.o), be |-> e.be, src |-> 0, edited |-> {}, h |-> "", dup |-> FALSE]
    [] e.op = "dec"  -> [c |-> Content(e.o), be |-> e.be, src |-> l + 1, edited |-> {}, h |-> IF e.again THEN s.h ELSE "", dup |-> ~Listed(e.o)]
    [] e.op \in {"set", "rem"} -> [s EXCEPT !.c = Content(e.o), !.h = "",
                                   !.edited = @ \cup {k \in {<<n, R(e.t).g, R(e.t).x>> : n \in 0..999} : e.op = "rem" \/ k[1] = R(e.t).n}]
    [] e.op = "enc"  -> [s EXCEPT !.h = e.h]

Init == /\ tr \in 1..Len(Traces)
        /\ l = 0
        /\ st = [c |-> {}, be |-> FALSE, src |-> 0, edited |-> {}, h |-> "", dup |-> FALSE]
        /\ bad = {}
Step == /\ l < Len(T.ev)
        /\ l' = l + 1
        /\ UNCHANGED tr
        /\ LET e == T.ev[l + 1] IN
             /\ bad' = Clauses(e, st)
             /\ st' = After(e, st)
Spec == Init /\ [][Step]_vars

Report == bad = {} \/ PrintT("REJECT " \o ToJson([id |-> T.id, l |-> l, bad |-> bad]))
Complete == TLCGet("distinct") = FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
=============================================================================
