----------------------------- MODULE RobustTrace -----------------------------
(* Recorded calls on damaged images against Robust.                          *)
EXTENDS Robust, TLC, SequencesExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
T == Traces[tr]
Cl(c, name) == IF c THEN {} ELSE {name}

Side(via, op, o) ==
  {<<via, c>> : c \in IF ~Answers(o) THEN {"CRASH"}
                      ELSE Cl(Untouched(op, o), "ATOM") \cup Cl(Frugal(T.len, o), "MEMORY")}
Clauses(e) == Side("vec", e.op, e.vec) \cup Side("file", e.op, e.file)
              \cup (IF Answers(e.vec) /\ Answers(e.file) THEN {<<"both", c>> : c \in Cl(Agree(e.op, T.as, T.det, e.vec, e.file), "EQ")} ELSE {})

Init == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Step == /\ l < Len(T.ev)
        /\ l' = l + 1
        /\ bad' = Clauses(T.ev[l + 1])
        /\ UNCHANGED tr
Spec == Init /\ [][Step]_vars

Report == bad = {} \/ PrintT("REJECT " \o ToJson([id |-> T.id, l |-> l, bad |-> bad]))
Complete == TLCGet("distinct") = FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
=============================================================================
