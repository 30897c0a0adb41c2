---------------------------- MODULE PyMirrorTrace ----------------------------
EXTENDS PyMirror, PyRefs, TraceIO
(* ---- errors: a refusal is a Python exception, and not the one the interpreter raises for broken extensions *)
Failed(e) == e.err # ""
Proper(e) == e.err \notin {"SystemError", "AssertionError"}
Ok(e) == ~Failed(e)

(* ---- what is observed after every event *)
ListOf(S) == Sorted(S)
Wrapped == {w \in Wrappers : lvl[w] # Absent}
ShownType == Elem[kind]
Name == "f64" :> "float64" @@ "f32" :> "float32" @@ "i64" :> "int64" @@ "i32" :> "int32" @@ "i16" :> "int16" @@ "obj" :> "object_"
LooksRight(e) ==
  IF kind = "" THEN TRUE
  ELSE
  /\ e.is = val
  /\ LET ws == ListOf(Wrapped) IN
     /\ Len(e.ws) = Len(ws)
     /\ \A k \in DOMAIN ws : /\ e.ws[k][1] = ws[k]
                             /\ e.ws[k][2] = lvl[ws[k]]
                             /\ e.ws[k][3] = Shown
                             /\ e.ws[k][4] = Elem[kind]
                             /\ e.ws[k][5] = Name[Elem[kind]]
  /\ LET vs == ListOf({s \in Slots : views[s].on}) IN
     /\ Len(e.vw) = Len(vs)
     /\ \A k \in DOMAIN vs : /\ e.vw[k][1] = vs[k]
                             /\ <<e.vw[k][2], e.vw[k][3]>> = ShownView(views[vs[k]])
                             /\ Len(e.vw[k][3]) > 0 => (views[vs[k]].part = "sp" /\ Concat(val.ents) = <<>>) \/ e.vw[k][4] = (IF views[vs[k]].w THEN 1 ELSE 0)
  /\ Has(e, "ix") => e.ix = 0        \* nobody can write to the columns of a matrix
RefsRight(e) == Has(e, "rc") => e.rc = <<Owned(1), Owned(2)>> /\ e.at = <<refs[1], refs[2], refs[3]>>

(* ---- events about the general parts of the module *)
Texts(what, v) ==
  LET digits(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + n \div 10, 48 + n - 10 * (n \div 10)>> IN
  CASE what = "string" -> <<<<"str", <<97, 98>> \o digits(v), 0>>>>
    [] what = "strings" -> <<<<"list", <<120, 10, 121>> \o digits(v) \o <<10, 10>>, 0>>>>
    [] what = "double" -> <<<<"f64", <<v>>, 1>>>>
    [] what = "int" -> <<<<"i32", <<v>>, 1>>>>
    [] what = "constint" -> <<<<"i32", <<v>>, 0>>>>
    [] what = "two" -> <<<<"i64", <<v>>, 1>>, <<"f32", <<v + 1>>, 0>>>>
    [] what = "badstring" -> <<>>
Scalar(e) ==
  /\ e.got = Texts(e.what, e.v)
  /\ CASE e.what = "badstring" -> e.err = "UnicodeDecodeError"
       [] e.how = "raise" -> e.err = "ArithmeticError"
       [] e.how = "write" /\ e.what = "constint" -> e.err = "ValueError"
       [] OTHER -> Ok(e) /\ e.ret = (IF e.how = "write" THEN e.v + 5 ELSE e.v)
Parse(e) ==
  /\ Accepts(e.arg, e.to) = "yes" => Ok(e)
  /\ Accepts(e.arg, e.to) = "no" => Failed(e)
  /\ e.got = (IF Ok(e) THEN e.arg.v ELSE <<>>)
Show(e) ==
  IF e.of = "bool" THEN Failed(e)
  ELSE Ok(e) /\ e.dt = (IF e.of = "c" THEN "i8" ELSE e.of) /\ e.got = <<e.v, e.v + 2, e.v + 4>>
(* device arrays, as cupy is asked for them: the memory, the element type, the extents and the strides in bytes *)
Width == "u8" :> 1 @@ "i16" :> 2 @@ "i32" :> 4 @@ "f32" :> 4 @@ "u64" :> 8 @@ "f64" :> 8
Times(d) == LET RECURSIVE P(_) P(i) == IF i = 0 THEN 1 ELSE d[i] * P(i - 1) IN P(Len(d))
Cupy(e) ==
  CASE e.of = "bool" -> e.err = "TypeError"
    [] e.how = "missing" -> Failed(e)
    [] e.how = "other" -> e.err = "AttributeError"
    [] e.how = "raise" -> e.err = "ArithmeticError"
    [] OTHER -> Ok(e) /\ e.got = <<<<e.ptr, Width[e.of] * Times(e.dims), 1, 0>>, <<e.of>>, e.dims, [i \in DOMAIN e.strides |-> e.strides[i] * Width[e.of]], 1, 1>>
NpyName == "i8" :> "NPY_BYTE" @@ "u8" :> "NPY_UBYTE" @@ "i16" :> "NPY_SHORT" @@ "u16" :> "NPY_USHORT" @@ "i32" :> "NPY_INT" @@ "u32" :> "NPY_UINT" @@ "i64" :> "NPY_LONG"
           @@ "u64" :> "NPY_ULONG" @@ "q" :> "NPY_LONGLONG" @@ "uq" :> "NPY_ULONGLONG" @@ "f32" :> "NPY_FLOAT" @@ "f64" :> "NPY_DOUBLE" @@ "ld" :> "NPY_LONGDOUBLE" @@ "obj" :> "NPY_OBJECT"
CxxName == "i8" :> "signed char" @@ "u8" :> "unsigned char" @@ "i16" :> "short" @@ "u16" :> "unsigned short" @@ "i32" :> "int" @@ "u32" :> "unsigned int" @@ "i64" :> "long"
           @@ "u64" :> "unsigned long" @@ "q" :> "long long" @@ "uq" :> "unsigned long long" @@ "f32" :> "float" @@ "f64" :> "double" @@ "ld" :> "long double"
TypeName(e) ==
  /\ e.name = (IF e.of \in DOMAIN NpyName THEN NpyName[e.of] ELSE "Error: unrecognized type")
  /\ e.index = (IF e.of \in DOMAIN CxxName THEN CxxName[e.of] ELSE "decltype(nullptr)")
Convert(e) == IF e.w # 0 /\ e.to = TypeOf[fam] THEN Ok(e) /\ e.ret = 1 ELSE e.err = "TypeError"
Repr(e) ==
  /\ Ok(e) /\ e.same = 1
  /\ e.head = "LvArray::" \o TypeOf[fam]
  /\ e.elem = (IF kind = "str" THEN e.elem ELSE CxxName[Elem[kind]])
(* a Python object that wraps nothing answers every question with an exception *)
Bare(e) == Failed(e) /\ Proper(e)
General(e) ==
  /\ UNCHANGED <<vars, refs>>
  /\ e.op # "rounds" => Proper(e)
  /\ CASE e.op = "scalar" -> Scalar(e)
       [] e.op = "parse" -> Parse(e)
       [] e.op = "show" -> Show(e)
       [] e.op = "typename" -> TypeName(e)
       [] e.op = "cupy" -> Cupy(e)
       [] e.op = "unmade" -> Failed(e)
       [] e.op = "convert" -> Convert(e)
       [] e.op = "repr" -> Repr(e)
       [] e.op = "bare" -> Bare(e)
       [] e.op = "module" -> IF e.how = "missing" THEN Failed(e) ELSE Ok(e) /\ e.ret = 1 /\ e.same = 1
       [] e.op = "constants" -> Ok(e) /\ e.got = <<0, 1, 2>> /\ e.types = PyTypes
       [] e.op = "rounds" -> e.blocks = 0 /\ e.news = 0 /\ e.refs = <<>>
       [] OTHER -> FALSE
Generals == {"scalar", "parse", "show", "typename", "convert", "repr", "bare", "module", "constants", "rounds", "cupy", "unmade"}

Ref(e) == Ok(e) /\ RefStep(e.do, e.i, e.o) /\ UNCHANGED vars
Comp(e) == IF fam = "crs" THEN e.is.comp ELSE 0
Ret(e, r) == Ok(e) => e.ret = r
Empty(k, d) == CASE Family[k] = "arr" -> [dims |-> [i \in 1 .. Dims[k] |-> 0], vals |-> <<>>, ri |-> 0]
              [] Family[k] = "crs" -> [nc |-> 0, cols |-> <<>>, ents |-> <<>>, comp |-> 1]
              [] Family[k] = "none" -> 0
              [] OTHER -> <<>>
Step(e) ==
  /\ UNCHANGED refs
  /\ Proper(e)
  /\ CASE e.op = "wrap" -> Ok(e) /\ Wrap(e.w)
       [] e.op = "drop" -> Ok(e) /\ Drop(e.w)
       [] e.op = "level" -> SetLevel(e, Ok(e))
       [] e.op = "native" -> Ok(e) /\ InCxx(e, Comp(e))
       [] e.op = "text" -> Ok(e) /\ Push(e.s)
       [] e.op = "py" /\ e.m # "resize_all" -> Call(e, Ok(e), Comp(e)) /\ (IF Ok(e) THEN e.ret = InPython(e).r ELSE TRUE)
       [] e.op = "py" /\ e.m = "resize_all" -> ResizeAll(e, Ok(e), IF fam = "text" THEN e.is ELSE e.is.vals)
       [] e.op = "item" -> DelItem(e, Ok(e), Comp(e)) /\ Ret(e, Item(e).r)
       [] e.op = "look" -> Look(e, Ok(e))
       [] e.op = "poke" -> Poke(e, Ok(e))
       [] e.op = "forget" -> Ok(e) /\ Forget(e.s)
       [] e.op = "call" ->
            /\ Apply(e, Ok(e))
            /\ (e.how = "raise" => e.err = "ArithmeticError")
            /\ e.got = (IF e.how \in {"notfun", "wrongargs"} THEN <<>> ELSE <<<<0, Shown>>>>)
       [] OTHER -> FALSE
TraceInit == kind = "" /\ val = 0 /\ lvl = [w \in Wrappers |-> Absent] /\ views = NoViews /\ refs = NoRefs /\ l = 1
TraceNext ==
  /\ More
  /\ \E e \in {Event} :
    /\ Advance
    /\ CASE e.op = "begin" -> Start(e.kind, Empty(e.kind, 0)) /\ refs' = NoRefs
         [] e.op \in Generals -> General(e)
         [] e.op = "ref" -> Ref(e)
         [] OTHER -> Step(e)
    /\ (e.op # "rounds" => LooksRight(e)' /\ RefsRight(e)')
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, refs, l>>
=============================================================================
