------------------------------ MODULE StoreMC ------------------------------
(***************************************************************************)
(* The metadata object as the library keeps it, a sorted list of           *)
(* directories each holding a sorted list of tags, checked to behave as    *)
(* the map of Store.tla for every history of MaxOps calls over a small     *)
(* universe.  Histories are printed and replayed into the library.         *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils

MaxOps == atoi(IOEnv.MAXOPS)

(* tags: name, group, number *)
Tags == {<<"A", 1, 271>>, <<"B", 1, 274>>, <<"W", 1, 256>>, <<"E", 2, 33434>>, <<"I", 3, 1>>, <<"P", 4, 1>>}
VARIABLES list, map, ops
vars == <<list, map, ops>>

----------------------------------------------------------------------------
(* the list, operations as in the library *)
Dir(n, g, ts) == [n |-> n, g |-> g, tags |-> ts]
Has(L, n, g) == \E i \in DOMAIN L : L[i].n = n /\ L[i].g = g
At(L, n, g)  == CHOOSE i \in DOMAIN L : L[i].n = n /\ L[i].g = g
SortDirs(L) == SortSeq(L, LAMBDA a, b : a.n < b.n \/ (a.n = b.n /\ a.g < b.g))
RECURSIVE LCreate(_, _, _)
LCreate(L, n, g) ==
  IF Has(L, n, g) THEN L
  ELSE LET M == IF Parent(g) = 0 THEN L ELSE LCreate(L, n, Parent(g))
       IN SortDirs(Append(M, Dir(n, g, <<>>)))
Retain(ts, x) == SelectSeq(ts, LAMBDA t : t[1] # x)
SortTags(ts) == SortSeq(ts, LAMBDA a, b : a[1] < b[1])
LSet(L, n, g, x, v) == LET M == LCreate(L, n, g) IN [M EXCEPT ![At(M, n, g)].tags = SortTags(Append(Retain(@, x), <<x, v>>))]
LRemIn(L, n, g, x)  == LET M == LCreate(L, n, g) IN [M EXCEPT ![At(M, n, g)].tags = SortTags(Retain(@, x))]
LMax(L) == LET s == {L[i].n : i \in {i \in DOMAIN L : L[i].g = 1}} IN IF s = {} THEN 0 ELSE CHOOSE n \in s : \A m \in s : m <= n
RECURSIVE LRemAll(_, _, _, _)
LRemAll(L, g, x, n) == IF n > LMax(L) THEN L ELSE LRemAll(IF Has(L, n, g) THEN LRemIn(L, n, g, x) ELSE L, g, x, n + 1)
LReduce(L) == LET M == SelectSeq(L, LAMBDA d : d.g = 1) IN [i \in DOMAIN M |-> [M[i] EXCEPT !.tags = SelectSeq(@, LAMBDA t : t[1] \in Minimal)]]

RECURSIVE LFill(_, _)
LFill(L, n) == IF n > LMax(L) THEN L ELSE LFill(LCreate(L, n, 1), n + 1)

----------------------------------------------------------------------------
N(x) == ToString(x)
Calls ==
  {[op |-> "set", n |-> 0, g |-> t[2], x |-> t[3], v |-> v, s |-> "set:" \o t[1] \o "." \o v] : t \in Tags, v \in {"1", "2"}}
  \cup {[op |-> "iset", n |-> n, g |-> t[2], x |-> t[3], v |-> "3", s |-> "iset:" \o N(n) \o ":" \o N(t[2]) \o ":" \o t[1] \o ".3"] : t \in Tags, n \in {1, 2}}
  \cup {[op |-> "rem", n |-> 0, g |-> t[2], x |-> t[3], v |-> "", s |-> "rem:" \o t[1]] : t \in Tags}
  \cup {[op |-> "irem", n |-> 1, g |-> t[2], x |-> t[3], v |-> "", s |-> "irem:1:" \o N(t[2]) \o ":" \o t[1]] : t \in Tags}
  \cup {[op |-> "mk", n |-> n, g |-> g, x |-> 0, v |-> "", s |-> "mk:" \o N(n) \o ":" \o N(g)] : n \in {0, 1, 3}, g \in Groups}
  \cup {[op |-> "red", n |-> 0, g |-> 0, x |-> 0, v |-> "", s |-> "red"], [op |-> "rt", n |-> 0, g |-> 0, x |-> 0, v |-> "", s |-> "rt"]}

OnList(c, L) ==
  CASE c.op \in {"set", "iset"} -> LSet(L, c.n, c.g, c.x, c.v)
    [] c.op = "rem"  -> LRemAll(L, c.g, c.x, 0)
    [] c.op = "irem" -> LRemIn(L, c.n, c.g, c.x)
    [] c.op = "mk"   -> LCreate(L, c.n, c.g)
    [] c.op = "red"  -> LReduce(L)
    [] c.op = "rt"   -> LFill(L, 0)
OnMap(c, m) ==
  CASE c.op \in {"set", "iset"} -> SetIn(m, c.n, c.g, c.x, c.v)
    [] c.op = "rem"  -> RemoveAll(m, c.g, c.x)
    [] c.op = "irem" -> RemoveIn(m, c.n, c.g, c.x)
    [] c.op = "mk"   -> Create(m, c.n, c.g)
    [] c.op = "red"  -> Reduce(m)
    [] c.op = "rt"   -> RoundTrip(m)

Init == list = <<>> /\ map = [k \in {} |-> Empty] /\ ops = <<>>
Next == /\ Len(ops) < MaxOps
        /\ \E c \in Calls : /\ list' = OnList(c, list)
                            /\ map' = OnMap(c, map)
                            /\ ops' = Append(ops, c.s)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TagFun(ts) == [x \in {ts[i][1] : i \in DOMAIN ts} |-> ts[CHOOSE i \in DOMAIN ts : ts[i][1] = x][2]]
Abs == [k \in {<<list[i].n, list[i].g>> : i \in DOMAIN list} |-> TagFun(list[At(list, k[1], k[2])].tags)]
Refines   == Abs = map
Ordered   == /\ [i \in DOMAIN list |-> <<list[i].n, list[i].g>>] = DirSeq(map)
             /\ \A i \in DOMAIN list : \A j \in 1..Len(list[i].tags) - 1 : list[i].tags[j][1] < list[i].tags[j + 1][1]
HasParents == \A k \in DOMAIN map : Chain(k[1], k[2]) \subseteq DOMAIN map
MaxRight  == LMax(list) = MaxNr(map)
(* the last write wins and nothing else moves *)
Isolated  == \A t \in Tags : \A n \in {0, 1} :
               LET m == SetIn(map, n, t[2], t[3], "9") IN
               /\ m[<<n, t[2]>>][t[3]] = "9"
               /\ \A k \in DOMAIN map : \A x \in DOMAIN map[k] : <<k, x>> # <<<<n, t[2]>>, t[3]>> => m[k][x] = map[k][x]
Emit == Len(ops) = MaxOps => PrintT("CASE " \o ToJson([ops |-> Append(ops, "rt")]))
=============================================================================
