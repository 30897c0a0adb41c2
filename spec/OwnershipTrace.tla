-------------------------- MODULE OwnershipTrace ----------------------------
EXTENDS Ownership, TraceIO
VARIABLE fixed
TraceInit == val = [o \in Objs |-> <<>>] /\ st = [o \in Objs |-> "ok"] /\ store = [o \in Objs |-> o] /\ sees = [k \in Views |-> 0] /\ tied = [k \in Views |-> FALSE] /\ fixed = FALSE /\ l = 1
(* What the view k shows, x, of what its owner holds, y: all of it; but a slice of an array knows nothing about which *)
(* dimension the array resizes, the last number of y[1].                                                              *)
Shown(k, x, y) ==
  /\ Len(x) = Len(y)
  /\ \A r \in 1..Len(x) : x[r] = y[r] \/ (tied'[k] /\ r = 1 /\ Len(x[1]) < Len(y[1]) /\ x[1] = SubSeq(y[1], 1, Len(x[1])))
Seen(e) ==
  /\ \A o \in Objs : st'[o] = "ok" => e.is[o] = val'[o]
  /\ \A k \in Views : e.alive[k] = 1 => sees'[k] # 0 /\ Shown(k, e.shows[k], val'[CHOOSE o \in Objs : store'[o] = sees'[k]])
Life(e) == Obs(e, "bad", 0)
Kept(e) == e.kept = 1
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event IN
     \/ e.op = "gone" /\ UNCHANGED <<vars, fixed>> /\ Obs(e, "live", 0) /\ Obs(e, "bad", 0) /\ Obs(e, "mem", 0) /\ Obs(e, "blocks", 0) /\ Obs(e, "badFrees", 0)
     \/ /\ e.op = "begin"
        /\ val' = e.is /\ st' = [o \in Objs |-> "ok"] /\ store' = [o \in Objs |-> o] /\ sees' = [k \in Views |-> 0] /\ tied' = [k \in Views |-> FALSE] /\ fixed' = (e.fixed = 1)
     \/ /\ e.op \notin {"gone", "begin"} /\ fixed' = fixed
        /\ \/ e.op = "mutate" /\ Mutate(e.o, e.is[e.o], Kept(e))
           \/ e.op = "write" /\ Write(e.o, e.c)
           \/ e.op = "renew" /\ Fresh(e.o, e.is[e.o])
           \/ e.op = "copy" /\ Copy(e.o, e.p, Kept(e))
           \/ e.op = "move" /\ Move(e.o, e.p, fixed)
           \/ e.op = "swap" /\ Swap(e.o, e.p, fixed)
           \/ e.op = "view" /\ See(e.k, e.o, e.tied = 1)
           \/ e.op = "viewCopy" /\ SeeAs(e.k, e.j)
           \/ e.op = "viewWrite" /\ SeeWrite(e.k, e.c)
        /\ Seen(e) /\ Life(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, fixed, l>>
=============================================================================
