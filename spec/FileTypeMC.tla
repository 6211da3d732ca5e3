----------------------------- MODULE FileTypeMC -----------------------------
(***************************************************************************)
(* A file that gets renamed, read, written and cleared, as FileType        *)
(* describes it, for all histories of MaxOps calls (MODE = "hist"); all    *)
(* spellings of all extensions and their near misses (MODE = "names"); all *)
(* signatures with every single byte changed or missing (MODE = "heads").  *)
(***************************************************************************)
EXTENDS FileType, Json, IOUtils

Mode == IOEnv.MODE
MaxOps == atoi(IOEnv.MAXOPS)
VARIABLES first, name, f, ops, case
vars == <<first, name, f, ops, case>>

C(o, t, a, n) == [o |-> o, t |-> t, a |-> a, n |-> n]
A(o) == C(o, "", "", <<>>)
Stem == <<112, 46, 97, 46>>     \* "p.a."
(* contents: kind, brand or variant, leading bytes *)
Leading(c) == CASE c = "JPEG" -> <<255, 216, 255, 225>> [] c = "PNG" -> <<137, 80, 78, 71>> [] c = "TIFF" -> <<73, 73, 42, 0>>
             [] c = "WEBP" -> <<82, 73, 70, 70, 0, 0, 0, 0, 87, 69, 66, 80>> [] c = "NJXL" -> <<255, 10, 0, 0>>
             [] c = "JXL" -> <<0, 0, 0, 12, 74, 88, 76, 32, 13, 10, 135, 10>>
             [] c = "HEIF" -> <<0, 0, 0, 24>> \o SubSeq(Ftyp, 5, 8) \o <<109, 105, 102, 49>>
             [] c = "HEIF?" -> <<0, 0, 0, 24>> \o SubSeq(Ftyp, 5, 8) \o <<122, 122, 122, 122>>
             [] c \in {"none", "dir", "empty"} -> <<>> [] c = "short" -> <<137, 80, 78>> [] OTHER -> <<7, 7, 7, 7>>
Contents == {"JPEG", "PNG", "WEBP", "JXL", "HEIF", "HEIF?", "TIFF", "NJXL", "junk", "short", "empty", "none", "dir"}
Real(c) == CASE c = "HEIF?" -> "HEIF" [] c \in Formats \cup {"NJXL"} -> c [] OTHER -> "junk"
File(c) == [there |-> IF c \in {"none", "dir"} THEN c ELSE "file", fmt |-> Real(c), head |-> Leading(c), m |-> IF Real(c) \in Formats THEN "p1" ELSE "none"]

----------------------------------------------------------------------------
(* names *)
Upper(s, M) == [i \in DOMAIN s |-> IF i \in M THEN s[i] - 32 ELSE s[i]]
Spellings == UNION {{Upper(x[2], M) : M \in SUBSET DOMAIN x[2]} : x \in Exts}
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
AddAt(s, i, b) == SubSeq(s, 1, i - 1) \o <<b>> \o SubSeq(s, i, Len(s))
Near == UNION {{DropAt(x[2], i) : i \in DOMAIN x[2]} \cup {AddAt(x[2], i, b) : i \in 1..Len(x[2]) + 1, b \in {32, 46, 101, 120, 255}}
               \cup {[x[2] EXCEPT ![i] = @ + d] : i \in DOMAIN x[2], d \in {-1, 1}} : x \in Exts}
        \cup {<<>>, <<103, 105, 102>>, <<112, 110, 195, 169>>, <<98, 109, 112>>}
Names == {Stem \o e : e \in Spellings \cup Near} \cup {<<46>> \o x[2] : x \in Exts} \cup {x[2] : x \in Exts} \cup {<<46, 46>> \o x[2] : x \in Exts} \cup {<<97, 255, 46>> \o x[2] : x \in Exts}
NameOps(e) == <<A("G"), C("S", "", "", e), A("R"), C("W", "", "p2", <<>>), A("R"), A("C12"), A("C"), A("R")>>
(* the content that fits the name, one that does not, and nothing at all *)
Fitting(n) == LET t == OfName(n) IN (IF t \in Formats THEN {t} ELSE {"JPEG"}) \cup {"PNG", "none"}

(* heads *)
Byte(b) == IF b = -1 THEN 65 ELSE b
Whole(x) == [i \in DOMAIN x |-> Byte(x[i])]
Bent == UNION {{Whole(x.s) \o t : t \in {<<>>, <<0>>, <<0, 0>>, <<65, 66, 67, 68>>}} \cup {SubSeq(Whole(x.s), 1, i) : i \in DOMAIN x.s}
               \cup {[Whole(x.s) EXCEPT ![i] = (@ + d) % 256] : i \in DOMAIN x.s, d \in {1, 32, 255}} \cup {<<0>> \o Whole(x.s)} : x \in Sigs}

----------------------------------------------------------------------------
(* histories *)
HNames == {Stem \o (CHOOSE x \in Exts : x[1] = t)[2] : t \in Formats} \cup {<<112>>, Stem \o <<103, 105, 102>>, Stem \o <<74, 80, 71>>}
Calls == {A("R"), C("W", "", "p2", <<>>), C("W", "", "p3", <<>>), A("C"), A("C13"), A("G"), A("D")}
         \cup {C("N", "", "", n) : n \in HNames} \cup {C(o, t, IF o = "X" THEN "p4" ELSE "", <<>>) : o \in {"V", "X", "Y", "Z"}, t \in {"JPEG", "HEIF", "JXL", "NJXL", "TIFF"}}
(* A call the text leaves open (Open) is not continued in the model. *)
After(c) == Call(c, name, f)
Init == /\ CASE Mode = "hist"  -> name \in HNames /\ \E c \in Contents : case = c /\ f = File(c) /\ ops = <<>>
          [] Mode = "names" -> name \in Names /\ \E c \in Fitting(name) : case = c /\ f = File(c) /\ ops = NameOps(SubSeq(name, 5, Len(name)))
          [] OTHER -> name = <<112>> /\ case = "raw" /\ \E h \in Bent : f = [there |-> "file", fmt |-> "raw", head |-> h, m |-> "none"] /\ ops = <<A("D")>>
        /\ first = name
Next == /\ Mode = "hist"
        /\ Len(ops) < MaxOps
        /\ \E c \in Calls : /\ c.o \in {"X", "Y", "V", "Z", "D", "N"} => f.there = "file"
                            /\ ops' = Append(ops, c)
                            /\ f' = LET r == After(c) IN IF r.r = "ok" THEN [r.file EXCEPT !.head = IF r.file.fmt # f.fmt THEN Leading(r.file.fmt) ELSE @] ELSE f
                            /\ name' = IF c.o = "N" THEN c.n ELSE name
                            /\ UNCHANGED <<case, first>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Supported == {n \in HNames : OfName(n) \in Formats}
(* a recognised image is read under the extension of any format *)
Portable == Mode # "hist" \/ f.there # "file" \/ f.fmt \notin Formats \/ Detect(f.head) = "none" \/ f.m = "none"
            \/ \A n \in Supported : LET r == ReadPath(n, f) IN r.r = "ok" /\ r.got = f.m
(* calls neither create files nor turn one format into another *)
Kept == Mode # "hist" \/ LET o == File(case) IN f.there = o.there /\ (f.fmt = o.fmt \/ (o.fmt = "NJXL" /\ f.fmt = "JXL"))
(* what fails or only looks changes nothing *)
Inert == Mode # "hist" \/ \A c \in Calls : LET r == After(c) IN (r.r # "ok" \/ c.o \in {"R", "V", "G", "D", "N"}) => r.file = f
(* no two signatures claim the same bytes *)
Distinct == Mode # "heads" \/ \A x, y \in Sigs : Fits(f.head, x.s) /\ Fits(f.head, y.s) => x.f = y.f
Spelled == Mode # "names" \/ \A x \in Exts : \A s \in {Upper(x[2], M) : M \in SUBSET DOMAIN x[2]} : OfExt(s) = x[1]
Emit == (Mode = "hist" /\ Len(ops) < MaxOps) \/ PrintT("CASE " \o ToJson([name |-> first, content |-> case, head |-> IF case = "raw" THEN f.head ELSE <<>>, ops |-> ops]))
=============================================================================
