------------------------------- MODULE Access -------------------------------
(* What a program may do through a container, a view of it or a slice of it.  A handle is the term that says what the   *)
(* program holds: the class, whether it is the owner, a view or a slice, whether what it shows is const (values v, sizes *)
(* s, columns c), and whether the handle itself is const (q).  Conversions lead from handle to handle; each handle       *)
(* promises some uses and forbids others, and what it does neither is left to the implementation.                        *)
EXTENDS Naturals, Sequences, FiniteSets

None == [f |-> "none"]                         \* the conversion is refused
Open == [f |-> "open"]                         \* nothing is said about the conversion
Int(q) == [f |-> "int", q |-> q]
Nd(k, d, u, e, q) == [f |-> "nd", k |-> k, d |-> d, u |-> u, e |-> e, q |-> q]    \* u: the last dimension is contiguous
Start(fam) ==
  CASE fam = "nd1"    -> Nd("owner", 1, TRUE, Int(FALSE), FALSE)
    [] fam = "nd2"    -> Nd("owner", 2, TRUE, Int(FALSE), FALSE)
    [] fam = "nd2p"   -> Nd("owner", 2, FALSE, Int(FALSE), FALSE)
    [] fam = "nest"   -> Nd("owner", 1, TRUE, Nd("owner", 1, TRUE, Int(FALSE), FALSE), FALSE)
    [] fam = "sorted" -> [f |-> "sorted", k |-> "owner", q |-> FALSE]
    [] fam = "aoa"    -> [f |-> "aoa", k |-> "owner", v |-> FALSE, s |-> FALSE, q |-> FALSE]
    [] fam = "aos"    -> [f |-> "aos", k |-> "owner", v |-> FALSE, q |-> FALSE]
    [] fam = "sp"     -> [f |-> "sp", k |-> "owner", v |-> FALSE, q |-> FALSE]
    [] fam = "crs"    -> [f |-> "crs", k |-> "owner", v |-> FALSE, c |-> FALSE, q |-> FALSE]
Families == {"nd1", "nd2", "nd2p", "nest", "sorted", "aoa", "aos", "sp", "crs"}

(* ------------------------------------------------------------------------------------------------ conversions ----- *)
RECURSIVE Nested(_), NestedConst(_)
Nested(e) == IF e.f = "int" THEN e
             ELSE Nd("view", e.d, e.u, Nested(e.e), TRUE)
NestedConst(e) == IF e.f = "int" THEN Int(TRUE)
                  ELSE Nd("view", e.d, e.u, NestedConst(e.e), TRUE)

Conversions == {"toView", "toViewConst", "toViewConstSizes", "toNestedView", "toNestedViewConst", "toSlice",
                "toSliceConst", "toArrayOfArraysView", "toSparsityPatternView"}
Steps == Conversions \cup {"row", "const", "copy"}

(* The conversion of something that has a name.  Const-ness of the handle itself is shallow. *)
Const(h) == [h EXCEPT !.q = TRUE]
NdConv(h, s) ==
  CASE s = "toView"            -> IF h.k = "slice" THEN None ELSE Nd("view", h.d, h.u, h.e, FALSE)
    [] s = "toViewConst"       -> IF h.k = "slice" THEN None ELSE Nd("view", h.d, h.u, Const(h.e), FALSE)
    [] s = "toNestedView"      -> IF h.k = "slice" THEN None ELSE Nd("view", h.d, h.u, Nested(h.e), FALSE)
    [] s = "toNestedViewConst" -> IF h.k = "slice" THEN None ELSE Nd("view", h.d, h.u, NestedConst(h.e), FALSE)
    [] s = "toSlice"           -> IF h.k = "slice" THEN Open ELSE Nd("slice", h.d, h.u, h.e, FALSE)
    [] s = "toSliceConst"      -> Nd("slice", h.d, h.u, Const(h.e), FALSE)
    [] s = "row"               -> IF h.d > 1 THEN Nd("slice", h.d - 1, h.u, h.e, FALSE)
                                  ELSE IF h.e.f = "nd" THEN h.e ELSE Open
    [] OTHER                   -> Open
RowSlice(v) == Nd("slice", 1, TRUE, Int(v), FALSE)
Conv(h, s) ==
  CASE s = "const" -> IF h.q THEN Open ELSE Const(h)
    [] s = "copy" -> [h EXCEPT !.q = FALSE]
    [] h.f = "nd" /\ s \notin {"const", "copy"} -> NdConv(h, s)
    [] h.f = "sorted" /\ s \in {"toView", "toViewConst"} -> [f |-> "sorted", k |-> "view", q |-> FALSE]
    [] h.f = "sorted" /\ s = "toSlice" -> RowSlice(TRUE)
    [] h.f = "aoa" /\ s = "toView" -> [h EXCEPT !.k = "view", !.q = FALSE]
    [] h.f = "aoa" /\ s = "toViewConstSizes" -> [h EXCEPT !.k = "view", !.q = FALSE, !.s = TRUE]
    [] h.f = "aoa" /\ s = "toViewConst" -> [h EXCEPT !.k = "view", !.q = FALSE, !.s = TRUE, !.v = TRUE]
    [] h.f = "aoa" /\ s = "row" -> RowSlice(h.v)
    [] h.f \in {"aos", "sp"} /\ s = "toView" -> [h EXCEPT !.k = "view", !.q = FALSE]
    [] h.f \in {"aos", "sp"} /\ s = "toViewConst" -> [h EXCEPT !.k = "view", !.q = FALSE, !.v = TRUE]
    [] h.f = "aos" /\ s = "row" -> RowSlice(TRUE)
    [] h.f = "aos" /\ s = "toArrayOfArraysView" -> [f |-> "aoa", k |-> "view", v |-> TRUE, s |-> TRUE, q |-> FALSE]
    [] h.f = "crs" /\ s = "toView" -> [h EXCEPT !.k = "view", !.q = FALSE]
    [] h.f = "crs" /\ s = "toViewConstSizes" -> [h EXCEPT !.k = "view", !.q = FALSE, !.c = TRUE]
    [] h.f = "crs" /\ s = "toViewConst" -> [h EXCEPT !.k = "view", !.q = FALSE, !.c = TRUE, !.v = TRUE]
    [] h.f = "crs" /\ s = "toSparsityPatternView" -> [f |-> "sp", k |-> "view", v |-> TRUE, q |-> FALSE]
    [] OTHER -> Open
(* The conversion of a temporary: a container that is about to go gives no view of itself, and a slice or a row, which   *)
(* points at the dimensions inside its view, is not taken from a view that is about to go.                               *)
Temp(h, s) ==
  IF Conv(h, s) \in {None, Open} \/ s \in {"const", "copy"} THEN Open
  ELSE IF h.f = "nd" /\ h.k # "slice" /\ (s \in {"toSlice", "toSliceConst"} \/ (s = "row" /\ h.d > 1)) THEN None
  ELSE IF h.f = "sorted" /\ s = "toSlice" THEN None
  ELSE IF h.k = "owner" /\ s \in Conversions THEN None
  ELSE IF h.f = "crs" /\ s = "toSparsityPatternView" THEN Open
  ELSE IF h.k = "owner" /\ s = "row" /\ h.f # "nd" THEN Open
  ELSE Conv(h, s)
(* A step, and whether what it leads to still shows the values of the container it started from. *)
Step(h, s, tmp) == IF tmp THEN Temp(h, s) ELSE Conv(h, s)
Owns(h) == h.f # "int" /\ h.k = "owner"
Parts(h, s) == s = "copy" /\ Owns(h)

(* --------------------------------------------------------------------------------------------- what is granted ----- *)
If(b, s) == IF b THEN s ELSE {}
Aliases == {"aliasView", "aliasViewConst", "aliasViewConstSizes", "aliasNestedView", "aliasNestedViewConst"}
NdWrites(h) == {"set", "setcall"} \cup If(h.d = 1 /\ h.u, {"setiter", "setall"})
               \cup If(h.k # "slice", {"setlinear", "setall", "zero", "setvalues"} \cup If(h.d = 1, {"setcopy"}))
NdAllWrites == {"set", "setcall", "setiter", "setall", "setlinear", "zero", "setvalues", "setcopy", "setcontig"}
NdShapes(h) == {"resize", "clear", "reserve"} \cup If(h.d = 1, {"append", "insert", "erase", "pop"}) \cup If(h.d > 1, {"resizedim"})
NdAllShapes == {"resize", "clear", "reserve", "append", "insert", "erase", "pop", "resizedim"}
NdPromise(h) ==
  {"get"} \cup If(~h.e.q, NdWrites(h)) \cup If(h.k = "owner" /\ ~h.q, NdShapes(h))
  \cup If(h.k # "slice" /\ ~h.q, {"assign"})
  \cup If(h.k # "slice", {"asviewc"}) \cup If(h.k # "slice" /\ ~h.e.q, {"asview"})
  \cup {"asslicec"} \cup If(~h.e.q, {"asslice"})
  \cup If(h.k = "slice", {"tmpslicec"} \cup If(~h.e.q, {"tmpslice"}))
  \cup If(h.k = "slice" /\ ~h.e.q /\ h.u, {"setcontig"})
NdForbid(h) ==
  If(h.e.q, NdAllWrites) \cup If(h.k # "owner" \/ h.q, NdAllShapes) \cup If(h.k = "slice" \/ h.q, {"assign"})
  \cup If(h.k = "slice", {"asview", "asviewc"}) \cup If(h.e.q, {"asview", "asslice", "tmpslice"})
  \cup If(h.k # "slice", {"tmpslice", "tmpslicec"})
NestPromise(h) ==
  {"get"} \cup If(~h.e.e.q, {"set"}) \cup If(~h.e.q, {"setelem"}) \cup If(~h.e.q /\ h.e.k = "owner", {"growelem"})
  \cup If(h.k = "owner" /\ ~h.q, {"resize", "append", "clear"}) \cup If(h.k # "slice" /\ ~h.q, {"assign"})
NestForbid(h) ==
  If(h.e.e.q, {"set"}) \cup If(h.e.q, {"setelem"}) \cup If(h.e.q \/ h.e.k # "owner", {"growelem"})
  \cup If(h.k # "owner" \/ h.q, {"resize", "append", "clear"}) \cup If(h.k = "slice" \/ h.q, {"assign"})
(* Ordered sets, the sets of an array of sets and the columns of a row are changed by inserting and removing only.       *)
SortedPromise(h) ==
  {"get", "contains"} \cup If(h.k = "owner" /\ ~h.q, {"insert", "insertmany", "remove", "removemany", "clear", "reserve"})
  \cup If(~h.q, {"assign"}) \cup If(h.k = "view", {"asview"})
SortedForbid(h) ==
  {"set", "setcall", "setiter", "setlinear", "asmutview", "asslice"}
  \cup If(h.k = "view" \/ h.q, {"insert", "insertmany", "remove", "removemany", "clear", "reserve"}) \cup If(h.q, {"assign"})
(* Rows grow within their capacity through views; only the owner, not const, moves rows about and allocates.              *)
Allocating == {"setcap", "resize", "appendrow", "eraserow", "reserve", "compress"}
AoaGrow == {"append", "appendmany", "insert", "insertmany"}
AoaRows == AoaGrow \cup {"erase", "appendatomic"}
AoaPromise(h) ==
  {"get"} \cup If(~h.v, {"set", "setcall", "setiter"})
  \cup If(h.k = "view" /\ ~h.v /\ ~h.s, AoaRows) \cup If(h.k = "owner" /\ ~h.q, AoaRows \cup Allocating \cup {"resizerow", "clearrow"})
  \cup If(~h.q, {"assign"})
  \cup If(h.k = "view", CASE h.v -> {"asviewc"} [] h.s /\ ~h.v -> {"asviewcs"} [] OTHER -> {"asview"})
AoaForbid(h) ==
  If(h.v, {"set", "setcall", "setiter"}) \cup If(h.v \/ h.s, AoaRows \cup {"resizerow", "clearrow"})
  \cup If(h.k = "view" \/ h.q, Allocating) \cup If(h.k = "owner" /\ h.q, AoaGrow \cup {"resizerow", "clearrow"})
  \cup If(h.q, {"assign"}) \cup {"writesizes", "writeoffsets"}
  \cup If(h.v \/ h.s, {"asview"}) \cup If(h.v, {"asviewcs"})
SetGrow == {"insert", "insertmany"}
SetRows == SetGrow \cup {"remove", "removemany"}
AosPromise(h) ==
  {"get", "contains"} \cup If(h.k = "view" /\ ~h.v, SetRows) \cup If(h.k = "owner" /\ ~h.q, SetRows \cup Allocating \cup {"clearrow"})
  \cup If(~h.q, {"assign"}) \cup If(h.k = "view", IF h.v THEN {"asviewc"} ELSE {"asview"})
AosForbid(h) ==
  {"set", "setcall", "setiter", "emplace", "emplaceback"}
  \cup If(h.v, SetRows \cup {"clearrow", "asview"}) \cup If(h.k = "view" \/ h.q, Allocating) \cup If(h.k = "owner" /\ h.q, SetGrow \cup {"clearrow"})
  \cup If(h.q, {"assign"})
SpAllocating == Allocating \ {"eraserow"}
SpPromise(h) ==
  {"get", "contains"} \cup If(h.k = "view" /\ ~h.v, SetRows) \cup If(h.k = "owner" /\ ~h.q, SetRows \cup SpAllocating)
  \cup If(~h.q, {"assign"}) \cup If(h.k = "view", IF h.v THEN {"asviewc"} ELSE {"asview"})
SpForbid(h) ==
  {"set", "setiter", "setlinear", "writeoffsets", "emplaceback", "insertset"}
  \cup If(h.v, SetRows \cup {"asview"}) \cup If(h.k = "view" \/ h.q, SpAllocating) \cup If(h.k = "owner" /\ h.q, SetGrow)
  \cup If(h.q, {"assign"})
CrsWrites == {"set", "setiter", "setvalues", "zero", "add", "addbin", "addlin", "addunsorted"}
CrsAllocating == Allocating \ {"eraserow", "appendrow"}
CrsPromise(h) ==
  {"get", "getcol"} \cup If(~h.v, CrsWrites) \cup If(h.k = "view" /\ ~h.v /\ ~h.c, SetRows)
  \cup If(h.k = "owner" /\ ~h.q, SetRows \cup CrsAllocating) \cup If(~h.q, {"assign"})
  \cup If(h.k = "view", CASE h.v -> {"asviewc"} [] h.c /\ ~h.v -> {"asviewcs"} [] OTHER -> {"asview"})
CrsForbid(h) ==
  {"setcol", "setcollinear", "writeoffsets"} \cup If(h.v, CrsWrites \cup {"setlinear"}) \cup If(h.v \/ h.c, SetRows)
  \cup If(h.k = "view" \/ h.q, CrsAllocating) \cup If(h.k = "owner" /\ h.q, SetGrow) \cup If(h.q, {"assign"})
  \cup If(h.v \/ h.c, {"asview"}) \cup If(h.v, {"asviewcs"})

Nest(h) == h.f = "nd" /\ h.e.f = "nd"
Promise(h) ==
  CASE Nest(h) -> NestPromise(h) [] h.f = "nd" /\ ~Nest(h) -> NdPromise(h) [] h.f = "sorted" -> SortedPromise(h)
    [] h.f = "aoa" -> AoaPromise(h) [] h.f = "aos" -> AosPromise(h) [] h.f = "sp" -> SpPromise(h) [] h.f = "crs" -> CrsPromise(h)
Forbid(h) ==
  CASE Nest(h) -> NestForbid(h) [] h.f = "nd" /\ ~Nest(h) -> NdForbid(h) [] h.f = "sorted" -> SortedForbid(h)
    [] h.f = "aoa" -> AoaForbid(h) [] h.f = "aos" -> AosForbid(h) [] h.f = "sp" -> SpForbid(h) [] h.f = "crs" -> CrsForbid(h)
(* The names of the view types agree with the conversions they stand for. *)
Named(h) ==
  LET is(s, a) == If(Conv(h, s) \notin {None, Open}, {a})
  IN is("toView", "aliasView") \cup is("toViewConst", "aliasViewConst") \cup is("toViewConstSizes", "aliasViewConstSizes")
     \cup is("toNestedView", "aliasNestedView") \cup is("toNestedViewConst", "aliasNestedViewConst")

(* How many values (or rows) the program sees: the drivers' containers have three rows, an ordered set two values.       *)
Shown(fam) == CASE fam \in {"nd2", "nd2p"} -> 6 [] fam = "sorted" -> 2 [] OTHER -> 3
RowLength == 2

(* A permutation names every dimension once; a container takes nothing else for its layout, and the last one it names    *)
(* is the dimension with stride one.                                                                                      *)
IsPermutation(p) == Len(p) > 0 /\ \A d \in 0..Len(p) - 1 : \E i \in 1..Len(p) : p[i] = d

(* What a handle can be used for in the end, through whatever can be made of it. *)
RECURSIVE NdPower(_)
NdPower(h) ==
  {"read"} \cup (IF h.e.f = "int" THEN If(~h.e.q, {"write"})
                 ELSE (NdPower(h.e) \ {"shape"}) \cup If(~h.e.q, {"replace"}) \cup If(~h.e.q /\ h.e.k = "owner", {"grow"}))
  \cup If(h.k = "owner" /\ ~h.q, {"shape"})
Power(h) ==
  CASE h.f = "nd" -> NdPower(h)
    [] h.f = "sorted" -> {"read"} \cup If(h.k = "owner" /\ ~h.q, {"rows", "shape"})
    [] h.f = "aoa" -> {"read"} \cup If(~h.v, {"write"}) \cup If(~h.v /\ ~h.s, {"rows"}) \cup If(h.k = "owner" /\ ~h.q, {"shape"})
    [] h.f \in {"aos", "sp"} -> {"read"} \cup If(~h.v, {"rows"}) \cup If(h.k = "owner" /\ ~h.q, {"shape"})
    [] h.f = "crs" -> {"read"} \cup If(~h.v, {"write"}) \cup If(~h.v /\ ~h.c, {"rows"}) \cup If(h.k = "owner" /\ ~h.q, {"shape"})
=============================================================================
