--------------------------- MODULE FileTypeTrace ---------------------------
(* Recorded calls on files of all names and contents against FileType.     *)
EXTENDS FileType, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, name, s, bad
vars == <<tr, l, name, s, bad>>
T == Traces[tr]
Cl(c, n) == IF c THEN {} ELSE {n}

State(o) == [there |-> o.there, fmt |-> o.fmt, head |-> o.head, m |-> o.now]
(* an image looks like what it is (a HEIF image may have an unknown brand) *)
Looks(o) == o.fmt \in {"junk", "raw"} \/ Detect(o.head) = o.fmt \/ (o.fmt = "HEIF" /\ Detect(o.head) = "none")

Clauses(e, x) ==
  IF e.res \notin {"ok", "err"} THEN {"CRASH"} ELSE
  LET same == e.same /\ e.there = s.there
      okay == CASE x.r = "ok" -> e.res = "ok" [] x.r = "err" -> e.res = "err" \/ x.may [] OTHER -> e.res = "err" \/ e.got = "empty"
      wrote == e.o \in {"W", "X", "C", "Y"} /\ e.res = "ok"
  IN Cl(okay, IF e.res = "ok" THEN "ACCEPT" ELSE "REFUSE")
     \cup Cl(x.u = "" \/ e.res = "ok" \/ e.kind = x.u, "KIND")
     \cup Cl(x.r # "ok" \/ e.res # "ok" \/ e.got = x.got, "GOT")
     \cup Cl(wrote \/ same \/ (e.o \in {"C12", "C13", "Z"} /\ e.res = "ok"), "TOUCHED")
     \cup Cl(e.o \notin {"C12", "C13", "Z"} \/ (e.now = s.m /\ Looks(e)), "EXIF")
     \cup Cl(~wrote \/ x.r # "ok" \/ (e.fmt = x.file.fmt /\ Looks(e)), "FORMAT")
     \cup Cl(~wrote \/ x.r # "ok" \/ e.o \notin {"W", "X"} \/ e.now = x.file.m, "WRITTEN")

Init == /\ tr \in 1..Len(Traces)
        /\ l = 0
        /\ name = T.name
        /\ s = State(T.init)
        /\ bad = Cl(Looks(T.init), "gen")
Step == /\ l < Len(T.ev)
        /\ l' = l + 1
        /\ UNCHANGED tr
        /\ LET e == T.ev[l + 1] IN
           /\ name' = IF e.o = "N" THEN e.n ELSE name
           /\ bad' = Clauses(e, Call(e, name, s))
           /\ s' = State(e)
Spec == Init /\ [][Step]_vars

Report == bad = {} \/ PrintT("REJECT " \o ToJson([id |-> T.id, l |-> l, bad |-> bad]))
Complete == TLCGet("distinct") = FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
=============================================================================
