------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The metadata object: a map from (directory, tag number) to a value.     *)
(*                                                                         *)
(* A directory is <<n, g>>: the number of the generic directory it belongs *)
(* to and its group, 1 = GENERIC, 2 = EXIF, 3 = INTEROP, 4 = GPS.  The     *)
(* state is a function from directories to functions from tag numbers to  *)
(* value identities.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Groups == 1..4
Parent(g) == CASE g = 2 -> 1 [] g = 4 -> 1 [] g = 3 -> 2 [] OTHER -> 0
RECURSIVE Chain(_, _)
Chain(n, g) == IF g = 0 THEN {} ELSE {<<n, g>>} \cup Chain(n, Parent(g))

Empty == [x \in {} |-> ""]
Only(f, S) == [x \in S |-> f[x]]
Drop(f, x) == Only(f, DOMAIN f \ {x})
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

Create(st, n, g) == [k \in DOMAIN st \cup Chain(n, g) |-> IF k \in DOMAIN st THEN st[k] ELSE Empty]
SetIn(st, n, g, x, v) == LET s == Create(st, n, g) IN [s EXCEPT ![<<n, g>>] = Put(@, x, v)]
(* a row of <<number, value>> pairs with different numbers *)
SetMany(st, n, g, row) ==
  LET s == Create(st, n, g)
      new == [x \in {row[i][1] : i \in DOMAIN row} |-> row[CHOOSE i \in DOMAIN row : row[i][1] = x][2]]
  IN [s EXCEPT ![<<n, g>>] = new @@ @]
RemoveIn(st, n, g, x) == LET s == Create(st, n, g) IN [s EXCEPT ![<<n, g>>] = Drop(@, x)]
RemoveAll(st, g, x)   == [k \in DOMAIN st |-> IF k[2] = g THEN Drop(st[k], x) ELSE st[k]]
RemovedFrom(st, g)    == Cardinality({k \in DOMAIN st : k[2] = g})

(* the tags that describe how the image is stored *)
Minimal == {256, 257, 258, 259, 262, 273, 277, 278, 279, 282, 283, 296, 320, 513, 514}
Reduce(st) == [k \in {k \in DOMAIN st : k[2] = 1} |-> Only(st[k], DOMAIN st[k] \cap Minimal)]

MaxNr(st) == LET s == {k[1] : k \in {k \in DOMAIN st : k[2] = 1}} IN IF s = {} THEN 0 ELSE CHOOSE n \in s : \A m \in s : m <= n
(* offset tags without their counterpart cannot be read back *)
Partner(x) == CASE x = 273 -> 279 [] x = 279 -> 273 [] x = 513 -> 514 [] x = 514 -> 513 [] OTHER -> x
Paired(f) == Only(f, {x \in DOMAIN f : Partner(x) \in DOMAIN f})
(* the chain has a directory for every number up to the highest *)
RoundTrip(st) == [k \in DOMAIN st \cup {<<m, 1>> : m \in 0..MaxNr(st)} |-> IF k \in DOMAIN st THEN Paired(st[k]) ELSE Empty]

(* directories in listing order *)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
DirSeq(st) == SetToSortSeq(DOMAIN st, Before)
TagSeq(f)  == SetToSortSeq(DOMAIN f, <)
(* all values of a number, in listing order; g = 0 means any group *)
Query(st, g, x) ==
  LET ds == SelectSeq(DirSeq(st), LAMBDA k : (g = 0 \/ k[2] = g) /\ x \in DOMAIN st[k])
  IN [i \in DOMAIN ds |-> st[ds[i]][x]]
=============================================================================
