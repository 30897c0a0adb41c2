--------------------------- MODULE SortedSetTrace ---------------------------
EXTENDS SortedSet, TraceIO
CapFacet == Checks("capacity")
Seen(e) == \A o \in Objs : e.seqs[o] = Ordered(set'[o]) /\ e.ns[2 * o - 1] = Cardinality(set'[o]) /\ e.ns[2 * o] = (IF set'[o] = {} THEN 1 ELSE 0)
After(e) ==
  /\ Checks("contents") => Seen(e)
  /\ Checks("life") => Obs(e, "live", FoldSet(LAMBDA o, n : n + Cardinality(set'[o]), 0, Objs)) /\ Obs(e, "bad", 0)
Returns(e, v) == Checks("contents") => e.ret = v
Empty == set' = [o \in Objs |-> {}] /\ room' = [o \in Objs |-> 0]
TraceInit == set = [o \in Objs |-> {}] /\ room = [o \in Objs |-> 0] /\ addr = [o \in Objs |-> 0] /\ l = 1
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event IN
     \/ e.op = "gone" /\ Empty /\ UNCHANGED addr /\ (Checks("life") => Obs(e, "live", 0) /\ Obs(e, "bad", 0) /\ Obs(e, "mem", 0))
     \/ /\ e.op # "gone" /\ addr' = [o \in Objs |-> e.addr[o]]
        /\ \/ e.op = "begin" /\ Empty
           \/ e.op = "insert" /\ Returns(e, e.v \notin set[e.o]) /\ Insert(e.o, {e.v})
           \/ e.op = "remove" /\ Returns(e, e.v \in set[e.o]) /\ Drop(e.o, {e.v})
           \/ e.op = "insertMany" /\ Returns(e, Added(e.o, ToSet(e.vals))) /\ Insert(e.o, ToSet(e.vals))
           \/ e.op = "removeMany" /\ Returns(e, Removed(e.o, ToSet(e.vals))) /\ Drop(e.o, ToSet(e.vals))
           \/ e.op = "insertAll" /\ Returns(e, Added(e.o, set[e.p])) /\ Insert(e.o, set[e.p])
           \/ e.op = "removeAll" /\ Returns(e, Removed(e.o, set[e.p])) /\ Drop(e.o, set[e.p])
           \/ e.op = "contains" /\ Returns(e, e.v \in set[e.o]) /\ Look
           \/ e.op = "clear" /\ Clear(e.o)
           \/ e.op = "reserve" /\ Reserve(e.o, e.n)
           \/ e.op = "copyAssign" /\ CopyAssign(e.o, e.p)
           \/ e.op \in {"moveAssign", "moveConstruct"} /\ MoveAssign(e.o, e.p)
           \/ e.op = "copyConstruct" /\ Fresh(e.o, set[e.p])
           \/ e.op = "renew" /\ Fresh(e.o, {})
           \/ e.op = "swap" /\ Swap(e.o, e.p)
        /\ After(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
