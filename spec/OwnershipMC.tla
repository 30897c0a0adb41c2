---------------------------- MODULE OwnershipMC -----------------------------
EXTENDS Ownership, Json
CONSTANTS MaxDepth
VARIABLE path
Op(o) == path' = Append(path, o)
Init == val = [o \in Objs |-> <<<<0>>>>] /\ st = [o \in Objs |-> "ok"] /\ store = [o \in Objs |-> o] /\ sees = [k \in Views |-> 0] /\ tied = [k \in Views |-> FALSE] /\ path = <<>>
Contents == {<<<<>>>>, <<<<1, 2>>>>}
Writes == {[how |-> "put", r |-> 1, i |-> 0, v |-> 5], [how |-> "append", r |-> 1, v |-> 7], [how |-> "drop", r |-> 1, v |-> 2]}
Fits(o, c) == c.how = "put" => Len(val[o][1]) > 0
Next ==
  \/ \E o \in Objs :
     \/ \E x \in Contents, kept \in BOOLEAN : Mutate(o, x, kept) /\ Op([op |-> "mutate", o |-> o, seed |-> Len(x[1]) + (IF kept THEN 10 ELSE 20)])
     \/ \E c \in Writes : Fits(o, c) /\ Write(o, c) /\ Op([op |-> "write", o |-> o, seed |-> Len(path)])
     \/ Fresh(o, <<<<0>>>>) /\ Op([op |-> "renew", o |-> o])
     \/ \E p \in Objs :
        \/ \E kept \in BOOLEAN : Copy(o, p, kept) /\ \E how \in {0, 1} : Op([op |-> "copy", o |-> o, p |-> p, how |-> how])
        \/ Move(o, p, FALSE) /\ \E how \in {0, 1} : Op([op |-> "move", o |-> o, p |-> p, how |-> how])
        \/ o < p /\ Swap(o, p, FALSE) /\ Op([op |-> "swap", o |-> o, p |-> p])
     \/ \E k \in Views, t \in BOOLEAN : See(k, o, t) /\ Op([op |-> "view", k |-> k, o |-> o, how |-> IF t THEN 4 + ((k + Len(path)) % 2) ELSE (k + Len(path)) % 4])
  \/ \E k \in Views :
     \/ \E j \in Views \ {k} : SeeAs(k, j) /\ Op([op |-> "viewCopy", k |-> k, j |-> j, how |-> (k + Len(path)) % 4])
     \/ Alive(k) /\ \E c \in Writes : Fits(Owner(k), c) /\ SeeWrite(k, c) /\ Op([op |-> "viewWrite", k |-> k, seed |-> Len(path)])
Spec == Init /\ [][Next]_<<vars, path>>
Bound == Len(path) < MaxDepth /\ \A o \in Objs : Len(val[o][1]) <= 3
(* which numbers the storages have does not matter *)
View == <<st, [o \in Objs |-> IF st[o] = "ok" THEN val[o] ELSE <<>>], [k \in Views |-> IF Alive(k) THEN <<Owner(k), tied[k]>> ELSE <<>>], IF path = <<>> THEN <<>> ELSE path[Len(path)].op>>
Emit == PrintT("@" \o ToJson(path'))
IsOp(names) == path' # path /\ path'[Len(path')].op \in names
(* A container changes only by operations on itself, on a view of its storage, or as the other side of a move or swap. *)
Independent ==
  [][path' # path => LET a == path'[Len(path')] IN
     \A q \in Objs : val'[q] # val[q] =>
       CASE a.op \in {"mutate", "write", "renew", "copy", "move"} -> q = a.o
         [] a.op = "swap" -> q \in {a.o, a.p}
         [] a.op = "viewWrite" -> store[q] = sees[a.k]
         [] OTHER -> FALSE]_<<vars, path>>
(* What a living view shows changes only when its owner's contents do; copying, moving or swapping containers shows nothing new through it,
   unless the owner was itself assigned to in place. *)
Shown(k) == val[Owner(k)]
Steady == [][path' # path => \A k \in Views : Alive(k) /\ sees'[k] = sees[k] /\ IsOp({"move", "swap"}) => val'[CHOOSE o \in Objs : store'[o] = sees'[k]] = Shown(k)]_<<vars, path>>
=============================================================================
