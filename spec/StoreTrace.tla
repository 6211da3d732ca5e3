----------------------------- MODULE StoreTrace -----------------------------
(* Checks recorded histories of calls on a metadata object against Store.  *)
EXTENDS Store, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, st, loose, bad
vars == <<tr, l, st, loose, bad>>
T == Traces[tr]
Cl(c, name) == IF c THEN {} ELSE {name}

(* the state an observed listing shows *)
TagsOf(ts) == [x \in {ts[i][1] : i \in DOMAIN ts} |-> (CHOOSE i \in DOMAIN ts : ts[i][1] = x /\ \A j \in DOMAIN ts : ts[j][1] = x => i <= j)]
StateOf(o) ==
  [k \in {<<o.dirs[i][1], o.dirs[i][2]>> : i \in DOMAIN o.dirs} |->
     LET d == o.dirs[CHOOSE i \in DOMAIN o.dirs : <<o.dirs[i][1], o.dirs[i][2]>> = k]
         ix == TagsOf(d[3])
     IN [x \in DOMAIN ix |-> d[3][ix[x]][2]]]

Expect(e, s) ==
  CASE e.op \in {"set", "iset"} -> SetIn(s, e.n, e.g, e.x, e.id)
    [] e.op = "fill"            -> SetMany(s, e.n, e.g, e.many)
    [] e.op = "irem"            -> RemoveIn(s, e.n, e.g, e.x)
    [] e.op \in {"rem", "hrem"} -> RemoveAll(s, e.g, e.x)
    [] e.op \in {"mk", "gm"}    -> Create(s, e.n, e.g)
    [] e.op = "red"             -> Reduce(s)
    [] e.op = "rt"              -> RoundTrip(s)

(* directories whose tags are in the order they were decoded in, not sorted *)
Loose(e, lo, s) ==
  CASE e.op = "rt"                      -> DOMAIN s
    [] e.op \in {"set", "iset", "irem", "fill"} -> lo \ {<<e.n, e.g>>}
    [] e.op \in {"rem", "hrem"}         -> {k \in lo : k[2] # e.g}
    [] e.op = "red"                     -> lo
    [] OTHER                            -> lo

Sorted(ts) == \A i \in 1..Len(ts) - 1 : ts[i][1] < ts[i + 1][1]
Uniq(ts)   == \A i, j \in DOMAIN ts : ts[i][1] = ts[j][1] => i = j
RECURSIVE Concat(_, _)
Concat(ds, i) == IF i > Len(ds) THEN <<>> ELSE ds[i][3] \o Concat(ds, i + 1)

Clauses(e, s, lo) ==
  IF e.res # "ok" THEN {"CRASH"} ELSE
  LET o == e.o
      keys == [i \in DOMAIN o.dirs |-> <<o.dirs[i][1], o.dirs[i][2]>>]
      ob == StateOf(o)
      same == DOMAIN ob = DOMAIN s
  IN Cl(keys = DirSeq(s), IF ToSet(keys) = DOMAIN s THEN "DIRORDER" ELSE "DIRS")
     \cup Cl(\A k \in DOMAIN s \cap DOMAIN ob : DOMAIN ob[k] = DOMAIN s[k], "TAGS")
     \cup Cl(\A k \in DOMAIN s \cap DOMAIN ob : \A x \in DOMAIN s[k] \cap DOMAIN ob[k] : ob[k][x] = s[k][x], "VALUE")
     \cup Cl(\A i \in DOMAIN o.dirs : Uniq(o.dirs[i][3]), "TWICE")
     \cup Cl(\A i \in DOMAIN o.dirs : keys[i] \notin lo => Sorted(o.dirs[i][3]), "ORDER")
     \cup Cl(o.iter = Concat(o.dirs, 1), "ITER")
     \cup Cl(~same \/ \A i \in DOMAIN o.q : o.q[i][3] = Query(s, o.q[i][1], o.q[i][2]), "QUERY")
     \cup Cl(~same \/ \A i \in DOMAIN o.gt : o.gt[i][3] = Query(s, o.gt[i][1], o.gt[i][2]), "QUERY")
     \cup Cl(~same \/ ToSet(o.one) = {<<k[1], k[2], Cardinality(DOMAIN s[k])>> : k \in DOMAIN s}, "SINGLE")
     \cup Cl(o.max = MaxNr(s), "MAX")
     \cup Cl(e.op \notin {"rem", "hrem"} \/ e.ret = RemovedFrom(st, e.g), "RET")
     \cup Cl(e.be = T.be, "ENDIAN")

Init == /\ tr \in 1..Len(Traces)
        /\ l = 0
        /\ st = StateOf(T.init)
        /\ loose = {}
        /\ bad = Cl(\A k \in DOMAIN StateOf(T.init) : StateOf(T.init)[k] = Empty, "FRESH")
Step == /\ l < Len(T.ev)
        /\ l' = l + 1
        /\ UNCHANGED tr
        /\ LET e == T.ev[l + 1]
               s == Expect(e, st)
               lo == Loose(e, loose, s)
           IN /\ bad' = Clauses(e, s, lo)
              /\ loose' = lo
              /\ st' = IF bad' = {} \/ e.res # "ok" THEN s ELSE StateOf(e.o)
Spec == Init /\ [][Step]_vars

Report == bad = {} \/ PrintT("REJECT " \o ToJson([id |-> T.id, l |-> l, bad |-> bad]))
Complete == TLCGet("distinct") = FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
=============================================================================
