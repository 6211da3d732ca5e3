----------------------------- MODULE ExportTrace -----------------------------
(* Recorded exports against Export and against what writes embed.           *)
EXTENDS Export, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, ver, bad
vars == <<tr, l, ver, bad>>
T == Traces[tr]
Cl(c, name) == IF c THEN {} ELSE {name}

(* Long blocks are recorded by length and digest only (small = FALSE).      *)
Clauses(e, v) ==
  IF e.res \notin {"ok", "err"} \/ e.wres \notin {"ok", "err"} THEN {"CRASH"}
  ELSE IF e.f = "E" THEN {}
  ELSE Cl(e.res = (IF e.f \in Carried /\ (e.f # "JPEG" \/ e.tlen + 8 <= 65535) THEN "ok" ELSE "err"), IF e.res = "ok" THEN "ACCEPT" ELSE "REFUSE")
       \cup Cl(e.kept /\ e.ver = v, "CHANGED")
       \cup Cl(e.res # "ok" \/ e.again, "TWICE")
       \cup (IF e.res # "ok" \/ e.f \notin Carried THEN Cl(e.f \notin Carried \/ e.wres = "err", "WRITES")
             ELSE Cl(e.wres = "ok", "WRITES")
                  \cup Cl(e.wres # "ok" \/ (e.carriers = 1 /\ e.xd = e.cd /\ e.exp = e.carr), "DIFFERS")
                  \cup Cl(~e.small \/ Holds(Unframe(e.f, e.exp, e.text), e.tiff), "FRAME"))

Init == tr \in 1..Len(Traces) /\ l = 0 /\ ver = 0 /\ bad = {}
Step == /\ l < Len(T.ev)
        /\ l' = l + 1
        /\ UNCHANGED tr
        /\ LET e == T.ev[l + 1] IN
           /\ ver' = IF e.f = "E" THEN ver + 1 ELSE ver
           /\ bad' = Clauses(e, ver)
Spec == Init /\ [][Step]_vars

Report == bad = {} \/ PrintT("REJECT " \o ToJson([id |-> T.id, l |-> l, bad |-> bad]))
Complete == TLCGet("distinct") = FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
=============================================================================
