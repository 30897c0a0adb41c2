--------------------------- MODULE BuffersTrace -----------------------------
EXTENDS Buffers, TraceIO
Locate(e) == at' = [h \in Handles |-> e.at[h]]
Seen(e) ==
  \A h \in Handles :
    /\ e.ok[h] = (IF ref'[h] = 0 THEN 0 ELSE 1)
    /\ ref'[h] # 0 => /\ e.caps[h] = cap'[ref'[h]]
                      /\ e.is[h] = val'[ref'[h]]
Live == LET RECURSIVE Sum(_)
            Sum(k) == IF k = 0 THEN 0 ELSE Sum(k - 1) + (IF \E h \in Handles : ref'[h] = k THEN Len(val'[k]) ELSE 0)
        IN Sum(Cardinality(Handles))
Life(e) == Obs(e, "live", Live) /\ Obs(e, "bad", 0)
TraceInit == /\ kind = [fixed |-> 0, empties |-> TRUE] /\ ref = [h \in Handles |-> h] /\ val = [k \in Ids |-> <<>>] /\ cap = [k \in Ids |-> 0]
             /\ at = [h \in Handles |-> 0] /\ l = 1
Begin(e) == /\ kind' = [fixed |-> e.fixed, empties |-> e.empties = 1] /\ ref' = [h \in Handles |-> h]
            /\ val' = [k \in Ids |-> <<>>] /\ cap' = [k \in Ids |-> e.fixed]
(* What an operation that may need room does: the new capacity is the code's choice. *)
Capped(e) == cap' = IF Usable(e.h) /\ e.ok[e.h] = 1 THEN [cap EXCEPT ![ref[e.h]] = e.caps[e.h]] ELSE cap
Done(e, ok, need) == IF e.err = 0 THEN ok ELSE Refused(e.h, need)
Size(h) == Len(val[ref[h]])
(* The same storage seen as a buffer of a type of another size: what is left over after its last whole value is not    *)
(* used.                                                                                                              *)
Recast(e) ==
  /\ Usable(e.h) /\ Same
  /\ e.err = 0 /\ e.same = 1 /\ e.rcap = (cap[ref[e.h]] * e.num) \div e.den
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event IN
     \/ e.op = "gone" /\ UNCHANGED vars /\ Obs(e, "live", 0) /\ Obs(e, "bad", 0) /\ Obs(e, "mem", 0) /\ Obs(e, "blocks", 0) /\ Obs(e, "badFrees", 0)
     \/ /\ e.op # "gone" /\ Locate(e)
        /\ \/ e.op = "begin" /\ Begin(e)
           \/ e.op = "fresh" /\ Fresh(e.h)
           \/ e.op = "copy" /\ Copy(e.h, e.g)
           \/ e.op = "move" /\ Move(e.h, e.g)
           \/ e.op = "free" /\ Free(e.h)
           \/ e.op = "look" /\ Usable(e.h) /\ Same /\ e.ccap = cap[ref[e.h]] /\ e.cvals = val[ref[e.h]] /\ e.same = (IF IsFixed THEN 0 ELSE 1)
           \/ e.op = "recast" /\ Recast(e)
           \/ e.op = "setName" /\ Usable(e.h) /\ Same
           \* the host always, no other space for kinds of the host
           \/ e.op = "space" /\ Usable(e.h) /\ Same /\ (e.host = 1 => e.err = 0) /\ (e.host = 0 => e.err = 1) /\ Obs(e, "prev", 1)
           \/ /\ e.op \in {"setCapacity", "reserve", "resize", "push", "emplace", "insert", "pop", "erase", "write", "copyInto"}
              /\ Usable(e.h)
              /\ Capped(e)
              /\ \/ e.op = "setCapacity" /\ (IF e.err = 0 THEN SetCapacity(e.h, e.n) ELSE SetCapacityRefused(e.h, e.n))
                 \/ e.op = "reserve" /\ Done(e, Reserve(e.h, e.n), e.n)
                 \/ e.op = "resize" /\ Done(e, Resize(e.h, e.n, IF Has(e, "v") THEN e.v ELSE 0), e.n)
                 \/ e.op = "push" /\ Done(e, Push(e.h, e.v), Size(e.h) + 1)
                 \/ e.op = "emplace" /\ Done(e, Insert(e.h, e.i, e.vals), Size(e.h) + 1)
                 \/ e.op = "insert" /\ Done(e, Insert(e.h, e.i, e.vals), Size(e.h) + Len(e.vals)) /\ (e.err = 0 => e.ret = Len(e.vals))
                 \/ e.op = "pop" /\ e.err = 0 /\ Pop(e.h)
                 \/ e.op = "erase" /\ e.err = 0 /\ Erase(e.h, e.i)
                 \/ e.op = "write" /\ e.err = 0 /\ Write(e.h, e.i, e.v)
                 \/ e.op = "copyInto" /\ Done(e, CopyValues(e.h, e.g), Size(e.g))
        /\ Seen(e) /\ Life(e) /\ Type' /\ Places'
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
