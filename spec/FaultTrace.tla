------------------------------ MODULE FaultTrace ------------------------------
(* Recorded outcomes of operations under file system faults against Fault.    *)
EXTENDS Fault, TLC, SequencesExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
T == Traces[tr]
Cl(c, name) == IF c THEN {} ELSE {name}

Clauses(e) ==
  IF ~Answers(e) THEN {"CRASH"} ELSE
  Cl(Whole(T.op, e), IF T.op = "R" THEN "READ" ELSE IF e.res = "ok" THEN "SILENT" ELSE "ATOM")
  \cup Cl(Calm(e), "CALM") \cup Cl(Honest(T.call, e), "HONEST")

Init == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Step == /\ l < Len(T.ev)
        /\ l' = l + 1
        /\ bad' = Clauses(T.ev[l + 1])
        /\ UNCHANGED tr
Spec == Init /\ [][Step]_vars

Report == bad = {} \/ PrintT("REJECT " \o ToJson([id |-> T.id, l |-> l, bad |-> bad]))
Complete == TLCGet("distinct") = FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
=============================================================================
