---------------------------- MODULE MemSpacesMC ------------------------------
EXTENDS MemSpaces, TLC, Json
CONSTANTS Kinds, MaxDepth
VARIABLE path
mcvars == <<vars, path>>
Op(o) == path' = Append(path, o)
Acts(h) == {"read"} \cup (IF h \in {"view", "own"} \/ (h = "sizes" /\ kind # "aos") THEN {"set"} \cap (IF kind \in {"array", "table", "nested", "aoa", "crs"} THEN {"set"} ELSE {}) ELSE {})
            \cup (IF h \in {"view", "own"} /\ kind = "aoa" THEN {"push"} ELSE {}) \cup (IF h \in {"view", "own"} /\ kind \in {"aos", "sparse", "crs"} THEN {"insert"} ELSE {})
W(act) == IF act = "set" THEN (IF kind = "nested" THEN {"n"} ELSE IF kind = "crs" THEN {"e"} ELSE {"v"})
          ELSE IF act = "read" THEN {} ELSE {"v", "z"} \cup (IF kind = "crs" THEN {"e"} ELSE {})
Start(k) == [p \in Parts(k) |-> IF p = "n" THEN <<OnHost, OnHost>> ELSE <<OnHost>>]
Init == /\ kind \in Kinds /\ path = <<[op |-> "begin", kind |-> kind], [op |-> "make", x |-> 1]>>
        /\ obj = [x \in Objects |-> IF x = 1 THEN [live |-> TRUE, rows |-> <<<<1>>>>, ents |-> <<<<1>>>>, at |-> Start(kind)] ELSE Gone]
        /\ ptr = [x \in Objects |-> [h \in Handles |-> IF x = 1 /\ h = "own" THEN [p \in Parts(kind) |-> IF p = "n" THEN 0 ELSE H] ELSE NoPtr]]
HostOps == CASE kind \in {"array", "table"} -> {"resize", "reserve"} [] kind = "sorted" -> {"insert", "reserve"}
             [] kind = "nested" -> {"resize", "inner"} [] OTHER -> {"capacity", "resize", "reserve"}
After(o, re) == [p \in Parts(kind) |-> [k \in DOMAIN o.at[p] |-> IF re THEN OnHost ELSE [o.at[p][k] EXCEPT !.touched = {H}, !.fresh = {H}, !.last = H]]]
Loose(op) == kind \in {"array", "table"} /\ op \in {"resize", "reserve"}
Next ==
  /\ UNCHANGED kind
  /\ \E x \in Objects :
    LET o == obj[x] IN
    \/ \E h \in HandlesOf(kind) :
         \/ ptr[x][h] = NoPtr /\ Take(x, h) /\ Op([op |-> "take", x |-> x, h |-> h])
         \/ \E s \in Spaces :
              \/ \E t \in {0, 1} : Move(x, h, s, t = 1) /\ Op([op |-> "move", x |-> x, h |-> h, s |-> s, t |-> t])
              \/ h # "own" /\ \E act \in Acts(h) : IF act = "read" THEN Capture(x, h, s) /\ Op([op |-> "capture", x |-> x, h |-> h, s |-> s])
                                                   ELSE Kernel(x, h, s, W(act), o.rows, o.ents) /\ Op([op |-> "kernel", x |-> x, h |-> h, s |-> s, act |-> act])
              \/ Fill(x, h, s, 7) /\ Op([op |-> "fill", x |-> x, h |-> h, s |-> s])
         \/ \E act \in Acts(h) \ {"read"} : (h = "own" => In(x, Parts(kind), H)) /\ Write(x, h, W(act), o.rows, o.ents) /\ Op([op |-> "write", x |-> x, h |-> h, act |-> act])
         \/ Zero(x, h) /\ Op([op |-> "zero", x |-> x, h |-> h])
         \/ RegisterTouch(x, h) /\ Op([op |-> "touch", x |-> x, h |-> h])
    \/ \E op \in HostOps : /\ (IF Loose(op) THEN HostHere(x) ELSE HostReady(x))
                           /\ \E re \in BOOLEAN : HostChange(x, o.rows, o.ents, IF op = "reserve" /\ ~re THEN o.at ELSE After(o, re)) /\ Op([op |-> op, x |-> x, more |-> IF re THEN 1 ELSE 0])
    \/ MoveInto(3 - x, x) /\ Op([op |-> "moveInto", x |-> 3 - x, y |-> x])
    \/ Copy(3 - x, x, IF obj[3 - x].live THEN After(obj[3 - x], FALSE) ELSE Start(kind)) /\ Op([op |-> "copy", x |-> 3 - x, y |-> x])
    \/ CopyValues(x, 3 - x) /\ Op([op |-> "memcpy", x |-> x, y |-> 3 - x])
    \/ (x = 1 /\ Swap /\ Op([op |-> "swap", x |-> 1, y |-> 2]))
    \/ Free(x) /\ Op([op |-> "free", x |-> x])
Spec == Init /\ [][Next]_mcvars
Bound == Len(path) < MaxDepth + 2
Abstract(o) == [live |-> o.live, at |-> o.at]
View == <<kind, Abstract(obj[1]), Abstract(obj[2]), ptr>>
Emit == PrintT("@" \o ToJson(path'))
=============================================================================
