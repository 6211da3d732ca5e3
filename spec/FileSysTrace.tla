---------------------------- MODULE FileSysTrace ----------------------------
(* Recorded calls on a directory of files against FileSys.                  *)
EXTENDS FileSys, SequencesExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
T == Traces[tr]
Cl(c, name) == IF c THEN {} ELSE {name}

(* An observation: ents the names with what they are, files one record for  *)
(* each file (digest, attributes, number of changes of its time stamp),     *)
(* seen what is read through each name that leads to an image, fds the      *)
(* number of open descriptors, cwd the working directory                    *)
Before == IF l = 0 THEN T.init ELSE T.ev[l].o
Content(o) == [i \in 1..5 |-> IF o.holds[i] = "junk" THEN "junk" ELSE o.holds[i]]
(* reading an image without metadata may be an error *)
Bare(c, pre) == c.o = "R" /\ Target(c) # 0 /\ pre[Target(c)] = "none"
(* A storm: every call e.storm times in its thread, each time on a copy of  *)
(* the file (or a vector with its content), all threads at the same time;   *)
(* res, got, holds and stays tell what the call gave before the threads     *)
(* started, same how often it gave exactly this with the others going on.   *)
Storm(e) ==
  LET b == Before n == e.o pre == Content(b)
      C == {e.calls[k] : k \in DOMAIN e.calls}
  IN IF \E c \in C : c.res \notin {"ok", "err"} THEN {"CRASH"} ELSE
     Cl(n = b, "OTHER")
     \cup Cl(\A c \in C : Bare(c, pre) \/ (c.res = "ok") = Ok(c, pre, T.fmt), "ANSWER")
     \cup Cl(\A c \in C : c.o = "R" /\ c.res = "ok" => c.got = (IF Bare(c, pre) THEN "empty" ELSE pre[Target(c)]), "GOT")
     \cup Cl(\A c \in C : IF c.o = "W" /\ c.res = "ok" THEN c.holds = c.a ELSE (c.res = "ok" /\ c.o \in {"C", "C12", "C13"}) \/ c.stays = 1, "WRITTEN")
     \cup Cl(\A c \in C : c.same = e.storm, "SAME")
Calm(e) ==
  LET b == Before n == e.o
      pre == Content(b)
      C == {e.calls[k] : k \in DOMAIN e.calls}
      swap == IF \E c \in C : c.o = "X" THEN {1, 5} ELSE {}
      aim == ({Target(c) : c \in {c \in C : Writing(c.o)}} \ {0}) \cup swap
      hit == {Target(c) : c \in {c \in C : Writing(c.o) /\ Ok(c, pre, T.fmt)}} \cup swap
  IN IF \E c \in C : c.res \notin {"ok", "err"} THEN {"CRASH"} ELSE
     Cl(n.ents = b.ents, "ENTRIES") \cup Cl(n.cwd = b.cwd, "CWD") \cup Cl(n.fds = b.fds, "FDS")
     \cup Cl(\A i \in 1..5 : i \in hit \/ n.files[i].dig = b.files[i].dig, "OTHER")
     \cup Cl(\A i \in 1..5 : i \in aim \/ n.files[i].time = 0, "TOUCHED")
     \cup Cl(\A i \in 1..5 : n.files[i].attr = b.files[i].attr, "ATTR")
     \cup Cl(\A k \in DOMAIN e.wopen : e.wopen[k] \in aim, "WOPEN")
     \cup Cl(\A c \in C : Bare(c, pre) \/ (c.res = "ok") = Ok(c, pre, T.fmt), "ANSWER")
     \cup Cl(\A c \in C : c.o = "R" /\ c.res = "ok" => c.got = (IF Bare(c, pre) THEN "empty" ELSE pre[Target(c)]), "GOT")
     \cup Cl(\A c \in C : c.o = "W" /\ c.res = "ok" => n.holds[Target(c)] = c.a, "WRITTEN")
     \cup Cl(swap # {} => n.holds = After([o |-> "X"], pre, T.fmt), "SWAP")
     \cup Cl(\A k \in DOMAIN n.seen : n.seen[k][2] = n.holds[n.seen[k][1]], "ALIAS")
Clauses(e) == IF e.storm > 0 THEN Storm(e) ELSE Calm(e)

Init == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Step == /\ l < Len(T.ev)
        /\ l' = l + 1
        /\ bad' = Clauses(T.ev[l + 1])
        /\ UNCHANGED tr
Spec == Init /\ [][Step]_vars

Report == bad = {} \/ PrintT("REJECT " \o ToJson([id |-> T.id, l |-> l, bad |-> bad]))
Complete == TLCGet("distinct") = FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
=============================================================================
