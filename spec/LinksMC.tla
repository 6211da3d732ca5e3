------------------------------- MODULE LinksMC -------------------------------
(***************************************************************************)
(* Directories that refer to one another in any way: the traversal a       *)
(* decoder performs visits finitely many directories whatever the links    *)
(* are, and visits every directory of a block that is a tree exactly once. *)
(* Directory d holds a link to a following directory (0: none) and at most *)
(* one pointer entry.  Every graph is replayed.                            *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils

N == atoi(IOEnv.DIRS)
D == 1..N
PtrNo == {0, 34665, 34853, 40965}        \* pointer entries, 0: none

VARIABLES next, ptr, to,       \* the block
          todo, seen, out, state
block == <<next, ptr, to>>
vars == <<next, ptr, to, todo, seen, out, state>>

Init == /\ next \in [D -> 0..N]
        /\ ptr \in [D -> PtrNo]
        /\ to \in [D -> D]
        /\ \A d \in D : ptr[d] = 0 => to[d] = 1
        /\ todo = <<<<1, 1, 0>>>>          \* directory, group, generic number
        /\ seen = {}                       \* generic directories visited
        /\ out = <<>>
        /\ state = "run"

(* a directory is visited; pointers of its group lead to sub-directories,  *)
(* only generic directories are followed                                   *)
Visit == /\ state = "run" /\ todo # <<>>
         /\ LET t == todo[1]  d == t[1]  g == t[2]
                sub == IF <<g, ptr[d]>> \in Pointers THEN <<<<to[d], SubOf(<<g, ptr[d]>>), t[3]>>>> ELSE <<>>
                nx == IF g = 1 /\ next[d] # 0 THEN <<<<next[d], 1, t[3] + 1>>>> ELSE <<>>
            IN IF g = 1 /\ d \in seen
               THEN state' = "refused" /\ UNCHANGED <<todo, seen, out>>
               ELSE /\ todo' = sub \o Tail(todo) \o nx
                    /\ seen' = IF g = 1 THEN seen \cup {d} ELSE seen
                    /\ out' = Append(out, <<t[3], g, d>>)
                    /\ UNCHANGED state
         /\ UNCHANGED block
Done == /\ state = "run" /\ todo = <<>> /\ state' = "done" /\ UNCHANGED <<next, ptr, to, todo, seen, out>>
Spec == Init /\ [][Visit \/ Done]_vars /\ WF_vars(Visit \/ Done)

Bounded    == Len(out) <= 3 * N                        \* generic, EXIF or GPS, INTEROP
Once       == \A i, j \in DOMAIN out : i # j => <<out[i][1], out[i][2]>> # <<out[j][1], out[j][2]>>
RefuseOnlyCycles == state = "refused" => LET RECURSIVE Reach(_, _)
                                             Reach(d, k) == IF d = 0 THEN FALSE ELSE k = 0 \/ Reach(next[d], k - 1)
                                         IN Reach(1, N)
Terminates == <>(state \in {"done", "refused"})

Emit == state \in {"done", "refused"} =>
          PrintT("CASE " \o ToJson([kind |-> "links", be |-> Len(out) % 2 = 0, next |-> next, ptr |-> ptr, to |-> to]))
=============================================================================
