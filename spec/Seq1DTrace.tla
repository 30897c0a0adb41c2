---------------------------- MODULE Seq1DTrace ------------------------------
EXTENDS Seq1D, TraceIO, FiniteSetsExt
CapFacet == Checks("capacity")
Storage(e) == cap' = [o \in Objs |-> e.cap[o]] /\ addr' = [o \in Objs |-> e.addr[o]]
Seen(e) ==
  \A o \in Objs : LET x == seq'[o]
                      n == Len(x)
                      k == 4 * (o - 1)
                  IN /\ e.seqs[o] = x
                     /\ e.ns[k + 1] = n /\ e.ns[k + 2] = n /\ e.ns[k + 3] = n /\ e.ns[k + 4] = (IF n = 0 THEN 1 ELSE 0)
                     /\ e.ends[o] = IF n = 0 THEN <<>> ELSE <<x[1], x[n]>>
Live == FoldSet(LAMBDA o, n : n + Len(seq'[o]), 0, Objs)
After(e) ==
  /\ Checks("contents") => Seen(e)
  /\ Checks("capacity") => \A o \in Objs : cap'[o] >= Len(seq'[o])
  /\ Checks("life") => Obs(e, "live", Live) /\ Obs(e, "bad", 0)
Empty == seq' = [o \in Objs |-> <<>>]
TraceInit == seq = [o \in Objs |-> <<>>] /\ cap = [o \in Objs |-> 0] /\ addr = [o \in Objs |-> 0] /\ l = 1
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event IN
     \/ e.op = "gone" /\ Empty /\ UNCHANGED <<cap, addr>> /\ (Checks("life") => Obs(e, "live", 0) /\ Obs(e, "bad", 0) /\ Obs(e, "mem", 0))
     \/ /\ e.op # "gone" /\ Storage(e)
        /\ \/ e.op = "begin" /\ Empty
           \/ e.op = "push" /\ Push(e.o, e.v)
           \/ e.op = "emplace" /\ Insert(e.o, e.i, <<e.v>>)
           \/ e.op = "insert" /\ Insert(e.o, e.i, e.vals)
           \/ e.op = "pop" /\ Pop(e.o)
           \/ e.op = "erase" /\ Erase(e.o, e.i)
           \/ e.op = "resize" /\ Resize(e.o, e.n, 0)
           \/ e.op \in {"resizeDefault", "resizeRaw"} /\ Resize(e.o, e.n, e.v)
           \/ e.op = "reserve" /\ Reserve(e.o, e.n)
           \/ e.op = "clear" /\ Clear(e.o)
           \/ e.op = "fill" /\ FillAll(e.o, e.v)
           \/ e.op = "zero" /\ FillAll(e.o, 0)
           \/ e.op \in {"write", "viewWrite"} /\ Write(e.o, e.i, e.v)
           \/ e.op = "copyAssign" /\ CopyAssign(e.o, e.p)
           \/ e.op = "moveAssign" /\ MoveAssign(e.o, e.p)
           \/ e.op = "copyConstruct" /\ CopyConstruct(e.o, e.p)
           \/ e.op = "moveConstruct" /\ MoveConstruct(e.o, e.p)
           \/ e.op = "renew" /\ Fresh(e.o, IF Has(e, "n") THEN Fill(e.n, 0) ELSE <<>>)
           \/ e.op = "swap" /\ Swap(e.o, e.p)
           \/ e.op = "copyValues" /\ CopyValues(e.o, e.p)
           \/ e.op \in {"view", "copyView"} /\ Look /\ (e.op = "view" => e.n2 = Len(seq[e.o]))
        /\ After(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
