------------------------------- MODULE FileSys -------------------------------
(***************************************************************************)
(* Files, the names that lead to them, and what the calls of the library   *)
(* may do to them: nothing is created, removed, renamed or replaced, only  *)
(* the content of the file a writing call is given changes, whatever way   *)
(* it is reached.  Calls on different files, and calls that only read, do  *)
(* not influence each other, whatever the interleaving of their steps.     *)
(*                                                                         *)
(* Files are numbered; content[i] is the metadata file i holds ("junk" for *)
(* one that is no image).  A call is [o, p, a]: R read, G get file type,   *)
(* W write a, C clear, C12 and C13 clear a segment; p the way to the file  *)
(* from the working directory "w" as a sequence of names.  X is no call of *)
(* the library: somebody else exchanges the content of files 1 and 5, which*)
(* have the same name in different directories and may look alike.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

File(i) == [k |-> "file", i |-> i]
Link(p) == [k |-> "link", p |-> p]
Dir(d)  == [k |-> "dir", d |-> d]
(* a, b, j: files, h: a hard link to a, s: a link to a, t: a link to s,    *)
(* g: a link to nothing, o: a link to itself, d: a directory of that name, *)
(* n: no such name, k: a file nobody asks for                              *)
Tree == [w   |-> [a |-> File(1), b |-> File(2), j |-> File(3), h |-> File(1), s |-> Link(<<"a">>), t |-> Link(<<"s">>),
                  g |-> Link(<<"gone">>), o |-> Link(<<"o">>), d |-> Dir("d"), k |-> File(4), sub |-> Dir("sub"), here |-> Link(<<".">>)],
         sub |-> [u |-> Link(<<"..", "a">>), e |-> File(5)],
         d   |-> [x \in {} |-> File(0)]]
Up(d) == "w"
Nothing == [k |-> "none"]

RECURSIVE Walk(_, _, _)
Walk(d, p, fuel) ==
  IF fuel = 0 THEN Nothing
  ELSE IF p = <<>> THEN Dir(d)
  ELSE LET h == Head(p) r == Tail(p) IN
       IF h = "." THEN Walk(d, r, fuel)
       ELSE IF h = ".." THEN Walk(Up(d), r, fuel)
       ELSE IF h \notin DOMAIN Tree[d] THEN Nothing
       ELSE LET e == Tree[d][h] IN
            CASE e.k = "dir"  -> Walk(e.d, r, fuel)
              [] e.k = "link" -> Walk(d, e.p \o r, fuel - 1)
              [] OTHER        -> IF r = <<>> THEN e ELSE Nothing
Reach(p) == Walk("w", p, 5)
Target(c) == LET e == Reach(c.p) IN IF e.k = "file" THEN e.i ELSE 0

Writing(o) == o \in {"W", "C", "C12", "C13"}
Image(content, i) == i # 0 /\ content[i] # "junk"
(* what a call answers; fmt[i] is the format of file i *)
Ok(c, content, fmt) ==
  LET i == Target(c) IN
  CASE c.o = "X" -> TRUE
    [] c.o = "G" -> Reach(c.p).k # "none"
    [] c.o = "R" -> Image(content, i)
    [] c.o \in {"C12", "C13"} -> Image(content, i) /\ fmt[i] = "JPEG"
    [] c.o = "C" -> Image(content, i)
    [] OTHER -> Image(content, i) \/ (i # 0 /\ fmt[i] = "TIFF")
(* and what the file holds afterwards ("cleared": less than before)        *)
After(c, content, fmt) ==
  IF c.o = "X" THEN [content EXCEPT ![1] = content[5], ![5] = content[1]]
  ELSE IF ~Ok(c, content, fmt) \/ ~Writing(c.o) THEN content
  ELSE [content EXCEPT ![Target(c)] = IF c.o = "W" THEN c.a ELSE IF c.o = "C" THEN "cleared" ELSE @]
(* calls that may go on at the same time                                   *)
Apart(c, x) == Target(c) # Target(x) \/ Target(c) = 0 \/ (~Writing(c.o) /\ ~Writing(x.o))
=============================================================================
