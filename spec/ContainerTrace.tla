--------------------------- MODULE ContainerTrace ---------------------------
(***************************************************************************)
(* Checks executions of the real library, recorded by the harness, against *)
(* Container.tla.  A trace starts with the observed initial image and has  *)
(* one event per public call.  Every event carries the projection of the   *)
(* image after the call through the in-memory interface (`vec`) and, where *)
(* it differs, through the file interface (`file`).  The model state moves *)
(* by the actions of Container; what the library did is compared with it   *)
(* clause by clause and names of broken clauses are collected in `bad`.    *)
(* After a broken clause the model is set to the observed image, so the    *)
(* rest of the trace is still checked.                                     *)
(***************************************************************************)
EXTENDS Container, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, st, hist, bad
vars == <<tr, l, st, hist, bad>>

T == Traces[tr]
Cl(c, name) == IF c THEN {} ELSE {name}

Crashed(o) == o.res \in {"panic", "hang", "abort"}

(* clauses about one observed image o, reached by event e from model image *)
(* st; prev is the digest before the call                                  *)
Red == IF "red" \in DOMAIN T THEN T.red ELSE <<>>
SetOf(q) == {q[i] : i \in DOMAIN q}
TagsOf(m) == SetOf(T.sets[m])
(* the harness names what is left of a payload; is it the right part? *)
RedOK == \A m \in DOMAIN Red : TagsOf(Red[m]) = Kept(T.fmt, TagsOf(m))
Unshowable(fmt, e, s) ==
  /\ fmt = "TIFF"
  /\ CASE e.op \in {"write", "edit"} -> e.m \in DOMAIN T.sets => ~Showable(TagsOf(e.m))
       [] e.op = "clear" -> s.carr # <<>> /\ s.carr[1] \in DOMAIN T.sets => ~Showable(TagsOf(s.carr[1]))
Expect(fmt, e, s) ==
  CASE e.op \in {"write", "edit"} -> WriteOf(fmt, s, e.m)
    [] e.op = "clear"             -> ClearWith(fmt, s, Red)
    [] e.op = "clear12"           -> ClearSegOf(s, "APP12")
    [] e.op = "clear13"           -> ClearSegOf(s, "APP13")

(* metadata in unusual places need not be found *)
Seen(o, c) == HasKind(o.u, "XEXIF") \/ ReadOK(c, o.read)

SegOps == {"clear12", "clear13"}
(* removing segments leaves all the others in their order, EXIF included   *)
SegKind(op) == IF op = "clear12" THEN "APP12" ELSE "APP13"
SegOrder(e, before, o) ==
  (e.op \in SegOps /\ o.res = "ok") =>
    SelectSeq(o.u, LAMBDA x : ~IsFiller(x)) = SelectSeq(before, LAMBDA x : ~IsFiller(x) /\ Kind(x) # SegKind(e.op))

ClausesOK(fmt, e, s, h, o) ==
  LET x == Expect(fmt, e, s)
      g == Image(o.u)
      hs == {r \in h : r.rest = x.rest /\ r.carr = x.carr}
  IN Cl(g.rest = x.rest, "PRES")
     \cup Cl(g.carr = x.carr, IF Len(g.carr) # Len(x.carr) THEN "COUNT" ELSE "CARR")
     \cup Cl(e.op \in SegOps \/ CarriersPlaced(fmt, o.u), "POS")
     \cup Cl(o.p = <<>>, "STRUCT")
     \cup Cl(Seen(o, x.carr), "READ")
     \cup Cl(\A r \in hs : r.h = o.h, "HIST")
     \cup Cl(~(e.op \in {"write", "edit"} /\ MayFail(fmt, "write", e.n, s.rest)), "OVERSIZE")
     \* metadata without the tags that describe the pixels are no TIFF image
     \cup Cl(~(e.op \in {"write", "edit"} /\ e.m \in DOMAIN T.sets /\ Unshowable(fmt, e, s)), "OVERSIZE")
(* a failed call: allowed only where the model allows it, and then nothing *)
(* may have changed                                                        *)
ClausesErr(fmt, e, s, prev, o) ==
  Cl(MayFail(fmt, e.op, e.n, s.rest) \/ Unshowable(fmt, e, s), "RES") \cup Cl(o.h = prev, "ATOM")
ClausesOf(fmt, e, s, h, prev, o) ==
  IF Crashed(o) THEN {"CRASH"}
  ELSE IF o.res = "ok" THEN ClausesOK(fmt, e, s, h, o)
  ELSE ClausesErr(fmt, e, s, prev, o)

(* both interfaces do the same; error texts may differ *)
SameObs(a, b) == a.res = b.res /\ a.u = b.u /\ a.p = b.p /\ a.read = b.read /\ a.h = b.h
FileObs(e) == IF e.file = <<>> THEN e.vec ELSE e.file[1]

Prefix(p, S) == {<<p, n>> : n \in S}
Clauses(fmt, e, s, h, prev) ==
  LET f == FileObs(e) IN
  Prefix("vec", ClausesOf(fmt, e, s, h, prev.vec, e.vec))
  \cup Prefix("file", IF e.file = <<>> THEN {} ELSE ClausesOf(fmt, e, s, h, prev.file, f))
  \cup Prefix("both", Cl(SameObs(e.vec, f), "EQ"))
  \cup Prefix("vec", Cl(SegOrder(e, prev.vu, e.vec), "ORDER"))
  \cup Prefix("file", Cl(SegOrder(e, prev.fu, f), "ORDER"))
  \* the base of a read-modify-write is what the model says is there
  \cup Prefix("vec", Cl(e.op # "edit" \/ e.m # "other", "BASE"))

(* digests seen for an image state, to compare different histories *)
Record(h, s, o) == IF o.res = "ok" /\ Image(o.u) = s THEN h \cup {[rest |-> s.rest, carr |-> s.carr, h |-> o.h]} ELSE h

NextState(fmt, e, s) == IF e.vec.res = "ok" THEN Image(e.vec.u) ELSE IF e.vec.p = <<>> THEN Image(e.vec.u) ELSE s

InitBad(t) ==
  LET o == t.init.vec IN
  Prefix("gen", Cl(o.p = <<>>, "INVALID") \cup Cl(RedOK, "REDUCED"))
  \cup Prefix("vec", Cl(Seen(o, Image(o.u).carr), "READ0"))
  \cup Prefix("both", Cl(t.init.file = <<>> \/ SameObs(o, t.init.file[1]), "EQ0"))

Init == /\ tr \in 1..Len(Traces)
        /\ l = 0
        /\ st = Image(T.init.vec.u)
        /\ hist = {}
        /\ bad = InitBad(T)
PrevH == LET p == IF l = 0 THEN T.init ELSE T.ev[l] IN
         [vec |-> p.vec.h, file |-> IF p.file = <<>> THEN p.vec.h ELSE p.file[1].h,
          vu |-> p.vec.u, fu |-> FileObs(p).u]
Step == /\ l < Len(T.ev)
        /\ l' = l + 1
        /\ UNCHANGED tr
        /\ LET e == T.ev[l + 1] IN
             /\ bad'  = Clauses(T.fmt, e, st, hist, PrevH)
             /\ st'   = NextState(T.fmt, e, st)
             /\ hist' = IF e.op \in {"write", "edit", "clear"} THEN Record(hist, st', e.vec) ELSE hist
Spec == Init /\ [][Step]_vars

(* Never false: reports the clauses broken by the last event.              *)
Report == bad = {} \/ PrintT("REJECT " \o ToJson([id |-> T.id, l |-> l, bad |-> bad]))
(* Every event of every trace has been consumed.                           *)
Complete == TLCGet("distinct") = FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
=============================================================================
