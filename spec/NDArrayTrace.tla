---------------------------- MODULE NDArrayTrace ----------------------------
EXTENDS NDArray, TraceIO, FiniteSetsExt
CapFacet == Checks("capacity")
Storage(e) == cap' = [o \in Objs |-> e.cap[o]] /\ addr' = [o \in Objs |-> e.addr[o]]
Seen(e) ==
  \A o \in Objs :
    LET d == dims'[o]
        x == data'[o]
        s == Strides(perm', d)
        n == Len(x)
        lex == LexPositions(s, d)
    IN /\ e.dims[o] = d /\ e.ns[2 * o - 1] = n /\ e.ns[2 * o] = (IF n = 0 THEN 1 ELSE 0) /\ n = Size(d)
       /\ known'[o] => e.strides[o] = s
       /\ e.sel[o] = sel'[o]
       /\ e.data[o] = x
       /\ e.lex[o] = [m \in 1..n |-> x[lex[m] + 1]]
Live == FoldSet(LAMBDA o, n : n + Len(data'[o]), 0, Objs)
After(e) ==
  /\ Checks("contents") => Seen(e)
  /\ Checks("capacity") => \A o \in Objs : cap'[o] >= Len(data'[o])
  /\ Checks("life") => Obs(e, "live", Live) /\ Obs(e, "bad", 0)
Zero(p) == [k \in 1..Len(p) |-> 0]
Begin(e) == /\ perm' = e.perm /\ dims' = [o \in Objs |-> Zero(e.perm)] /\ data' = [o \in Objs |-> <<>>] /\ sel' = [o \in Objs |-> 0] /\ known' = [o \in Objs |-> TRUE]
TraceInit == perm = <<>> /\ dims = [o \in Objs |-> <<>>] /\ data = [o \in Objs |-> <<>>] /\ sel = [o \in Objs |-> 0] /\ known = [o \in Objs |-> TRUE]
             /\ cap = [o \in Objs |-> 0] /\ addr = [o \in Objs |-> 0] /\ l = 1
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event IN
     \/ /\ e.op = "gone" /\ UNCHANGED <<perm, dims, sel, known, cap, addr>> /\ data' = [o \in Objs |-> <<>>]
        /\ (Checks("life") => Obs(e, "live", 0) /\ Obs(e, "bad", 0) /\ Obs(e, "mem", 0))
     \/ /\ e.op # "gone" /\ Storage(e)
        /\ \/ e.op = "begin" /\ Begin(e)
           \/ e.op = "resize" /\ ResizeOne(e.o, e.n, 0)
           \/ e.op = "resizeDefault" /\ ResizeOne(e.o, e.n, e.v)
           \/ e.op = "resizeAll" /\ ResizeAll(e.o, e.d, IF ND = 1 THEN Kept(e.d, dims[e.o], data[e.o], 0) ELSE e.data[e.o])
           \/ e.op = "resizeRaw" /\ ResizeRaw(e.o, e.d, e.v)
           \/ e.op = "clear" /\ Clear(e.o)
           \/ e.op = "select" /\ e.called = 0 /\ Select(e.o, e.k)
           \/ e.op = "badSelect" /\ e.called = 1 /\ e.k \notin 0..(ND - 1) /\ Refused
           \/ e.op = "badResize" /\ e.called = 1 /\ Refused
           \/ e.op = "reserve" /\ Reserve(e.o, e.n)
           \/ e.op = "number" /\ NumberAll(e.o, e.v)
           \/ e.op = "fill" /\ FillAll(e.o, e.v)
           \/ e.op = "zero" /\ FillAll(e.o, 0)
           \/ e.op \in {"write", "viewWrite"} /\ Write(e.o, e.idx, e.v)
           \/ e.op = "copyValues" /\ CopyValues(e.o, e.p)
           \/ e.op = "badCopyValues" /\ dims[e.o] # dims[e.p] /\ e.called = 1 /\ Refused
           \/ e.op = "copyOther" /\ CopyOther(e.o, e.d, e.theirs, e.v, e.called = 1)
           \/ e.op = "copyAssign" /\ CopyAssign(e.o, e.p)
           \/ e.op = "moveAssign" /\ Move(e.o, e.p)
           \/ e.op = "moveConstruct" /\ Move(e.o, e.p)
           \/ e.op = "copyConstruct" /\ CopyConstruct(e.o, e.p)
           \/ e.op = "renew" /\ Fresh(e.o, e.d, [p \in 1..Size(e.d) |-> 0])
           \/ e.op = "swap" /\ Swap(e.o, e.p)
           \/ e.op = "view" /\ Look
        /\ After(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
