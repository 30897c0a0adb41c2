--------------------------- MODULE MemSpacesTrace ----------------------------
EXTENDS MemSpaces, TraceIO
Order == <<"v", "z", "o", "e">>
Bits(h, g) == (IF h = 1 THEN {H} ELSE {}) \cup (IF g = 1 THEN {G} ELSE {})
(* A recorded block: has, last, touched on the host and on the device, allocated on the host and on the device. *)
Block(r) == IF r[1] = 0 THEN NoBlock ELSE [has |-> TRUE, last |-> r[2], touched |-> Bits(r[3], r[4]), alloc |-> Bits(r[5], r[6]), fresh |-> {}]
Seen(e, p) == LET q == IF p = "n" THEN "z" ELSE p IN LET i == CHOOSE i \in 1..4 : Order[i] = q IN [k \in DOMAIN e.at[i] |-> Block(e.at[i][k])]
Pointers(e) == [p \in Parts(kind) |-> IF p = "n" THEN 0 ELSE e.p[CHOOSE i \in 1..4 : Order[i] = p]]
Fresh(b, f) == [b EXCEPT !.fresh = IF b.has THEN f ELSE {}]
New(e) == [p \in Parts(kind) |-> [k \in DOMAIN Seen(e, p) |-> Fresh(Seen(e, p)[k], {H})]]
(* what is left of an object that was not changed: copies on the device that exist are still good *)
Kept(e, o) == [p \in Parts(kind) |-> [k \in DOMAIN Seen(e, p) |-> LET b == Seen(e, p)[k] IN Fresh(b, IF k \in DOMAIN o.at[p] THEN {H} \cup (o.at[p][k].fresh \cap b.alloc) ELSE {H})]]
Plain(b) == [b EXCEPT !.fresh = {}]
(* The blocks and the pointers of the handle are as the specification says, and so is what it reads. *)
Same(e) ==
  LET o == obj'[e.x] h == e.h IN
  /\ \A p \in Sees(kind, h) : Seen(e, p) = [k \in DOMAIN o.at[p] |-> Plain(o.at[p][k])]
  /\ \A p \in Sees(kind, h) \ {"n"} : \A k \in DOMAIN o.at[p] : o.at[p][k].has => Pointers(e)[p] = (IF Has(e, "s") /\ e.op \in {"capture", "kernel"} THEN e.s ELSE ptr'[e.x][h][p])
  /\ (e.op \in {"capture", "kernel"} \/ HereAt(o, ptr'[e.x][h], h)) => /\ (Has(e, "rows") /\ e.rows = o.rows)
                                                        /\ ((kind = "crs" /\ h # "other") => (Has(e, "ents") /\ e.ents = o.ents))
Count(o) == LET RECURSIVE Sum(_)
                Sum(B) == IF B = {} THEN 0 ELSE LET b == CHOOSE b \in B : TRUE IN Cardinality(o.at[b[1]][b[2]].alloc) + Sum(B \ {b})
            IN Sum({<<p, k>> \in Parts(kind) \X (1..20) : k \in DOMAIN o.at[p]})
(* nothing is allocated but what the containers use, and nothing was freed twice *)
Memory(e) == e.blocks = Count(obj'[1]) + Count(obj'[2]) /\ e.bad = 0

Rows(e) == obj[e.x].rows
Ents(e) == obj[e.x].ents
Matrix == kind = "crs"
(* ----- changes of the contents: by a loop or through a handle -----                                                *)
Parts1(act) == IF act = "set" THEN (IF kind = "nested" THEN {"n"} ELSE IF Matrix THEN {"e"} ELSE {"v"})
               ELSE IF act = "read" THEN {} ELSE {"v", "z"} \cup (IF Matrix THEN {"e"} ELSE {})
ActRows(e) ==
  LET r == Rows(e) IN
  CASE e.act = "set" -> IF Matrix THEN r ELSE [r EXCEPT ![e.r][e.i] = e.v]
    [] e.act = "push" -> [r EXCEPT ![e.r] = Append(@, e.v)]
    [] e.act = "pop" -> [r EXCEPT ![e.r] = SubSeq(@, 1, Len(@) - 1)]
    [] e.act = "insert" -> [r EXCEPT ![e.r] = Sorted1(@, e.v)]
    [] e.act = "remove" -> [r EXCEPT ![e.r] = Cut1(@, e.v)]
    [] OTHER -> r
ActEnts(e) ==
  LET n == Ents(e) r == Rows(e) IN
  IF ~Matrix THEN n
  ELSE CASE e.act = "set" -> [n EXCEPT ![e.r][e.i] = e.v]
         [] e.act = "insert" -> IF Member(r[e.r], e.v) THEN n ELSE [n EXCEPT ![e.r] = Put(@, Place(r[e.r], e.v), e.w)]
         [] e.act = "remove" -> IF Member(r[e.r], e.v) THEN [n EXCEPT ![e.r] = Without(@, Place(r[e.r], e.v))] ELSE n
         [] OTHER -> n
(* ----- operations of the container on the host -----                                                               *)
Empty(n) == [i \in 1..n |-> <<>>]
HostRows(e) ==
  LET r == Rows(e) IN
  CASE e.op = "resize" -> IF kind = "nested" THEN [i \in 1..e.n |-> IF i <= Len(r) THEN r[i] ELSE <<>>]
                          ELSE IF kind \in {"array", "table"} THEN [i \in DOMAIN r |-> Padded(r[i], e.n, e.v)]
                          ELSE [i \in 1..e.n |-> IF i <= Len(r) THEN r[i] ELSE <<>>]
    [] e.op = "inner" -> [r EXCEPT ![e.r] = Padded(@, e.n, 0)]
    [] e.op = "append" -> IF kind = "array" THEN <<Append(r[1], e.v)>> ELSE Append(r, e.vals)
    [] e.op = "erase" -> IF kind = "array" THEN <<Without(r[1], e.i)>> ELSE Without(r, e.i)
    [] e.op = "clear" -> IF kind = "nested" THEN <<>> ELSE [i \in DOMAIN r |-> <<>>]
    [] e.op = "capacity" -> [r EXCEPT ![e.r] = Upto(@, e.n)]
    [] e.op = "insert" -> [r EXCEPT ![e.r] = Sorted1(@, e.v)]
    [] e.op = "remove" -> [r EXCEPT ![e.r] = Cut1(@, e.v)]
    [] OTHER -> r          \* reserve, compress
HostEnts(e) ==
  LET n == Ents(e) r == Rows(e) IN
  IF ~Matrix THEN n
  ELSE CASE e.op = "resize" -> [i \in 1..e.n |-> IF i <= Len(n) THEN n[i] ELSE <<>>]
         [] e.op = "capacity" -> [n EXCEPT ![e.r] = Upto(@, e.n)]
         [] e.op = "insert" -> IF Member(r[e.r], e.v) THEN n ELSE [n EXCEPT ![e.r] = Put(@, Place(r[e.r], e.v), e.w)]
         [] e.op = "remove" -> IF Member(r[e.r], e.v) THEN [n EXCEPT ![e.r] = Without(@, Place(r[e.r], e.v))] ELSE n
         [] OTHER -> n
(* The values that stay are where they were, so copies on the device that are kept are still good. *)
Stay(e) == \/ e.op = "reserve" /\ kind \in {"array", "table"}
           \/ e.op = "clear" /\ kind \in {"array", "table"}
           \/ e.op = "resize" /\ kind = "array" /\ e.n <= Len(Rows(e)[1])
           \/ e.op = "resize" /\ kind = "table" /\ (e.n = 0 \/ e.n = Len(Rows(e)[1]))
(* resizes of arrays, and what does not change anything, do not need the touch *)
Ready(e) == IF kind \in {"array", "table"} /\ e.op \in {"resize", "reserve", "clear"} THEN HostHere(e.x) ELSE HostReady(e.x)
HostOps == {"resize", "inner", "append", "erase", "clear", "capacity", "insert", "remove", "reserve", "reserveRows", "compress"}

TraceInit == /\ kind = "array" /\ obj = [x \in Objects |-> [live |-> FALSE, rows |-> <<>>, ents |-> <<>>, at |-> [p \in {"v"} |-> <<>>]]]
             /\ ptr = [x \in Objects |-> [h \in Handles |-> [p \in {"v"} |-> 0]]] /\ l = 1
Step(e) ==
  \/ /\ e.op = "make"
     /\ (\A p \in Parts(kind) : \A k \in DOMAIN Seen(e, p) : ~Seen(e, p)[k].has \/ Plain(OnHost) = Seen(e, p)[k])
     /\ Make(e.x, e.rows, e.ents, New(e)) /\ Same(e)
  \/ e.op = "take" /\ Take(e.x, e.h) /\ Same(e)
  \/ e.op = "move" /\ Move(e.x, e.h, e.s, e.t = 1) /\ Same(e)
  \/ e.op = "capture" /\ Capture(e.x, e.h, e.s) /\ Same(e)
  \/ e.op = "kernel" /\ Kernel(e.x, e.h, e.s, Parts1(e.act), ActRows(e), ActEnts(e)) /\ Same(e)
  \/ e.op = "write" /\ Write(e.x, e.h, Parts1(e.act), ActRows(e), ActEnts(e)) /\ Same(e)
  \/ e.op = "touch" /\ RegisterTouch(e.x, e.h) /\ Same(e)
  \/ e.op = "zero" /\ Zero(e.x, e.h) /\ Same(e)
  \/ e.op = "fill" /\ Fill(e.x, e.h, e.s, e.v) /\ Same(e)
  \/ e.op = "deviceFill" /\ DeviceFill(e.x, <<[i \in 1..e.n |-> e.v]>>, [p \in {"v"} |-> [k \in DOMAIN Seen(e, p) |-> Fresh(Seen(e, p)[k], {G})]], Pointers(e)) /\ Same(e)
  \/ e.op = "memcpy" /\ CopyValues(e.x, e.y) /\ Same(e)
  \/ e.op = "copy" /\ Copy(e.x, e.y, New(e)) /\ Same(e)
  \/ e.op = "moveInto" /\ MoveInto(e.x, e.y) /\ Same(e)
  \/ e.op = "swap" /\ Swap /\ Same(e)
  \/ e.op = "free" /\ Free(e.x)
  \/ /\ e.op \in HostOps /\ Ready(e)
     /\ HostChange(e.x, HostRows(e), HostEnts(e), IF Stay(e) THEN Kept(e, obj[e.x]) ELSE New(e))
     /\ Same(e)
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event IN
     \/ /\ e.op = "begin" /\ kind' = e.kind
        /\ obj' = [x \in Objects |-> [live |-> FALSE, rows |-> <<>>, ents |-> <<>>, at |-> [p \in Parts(e.kind) |-> <<>>]]]
        /\ ptr' = [x \in Objects |-> [h \in Handles |-> [p \in Parts(e.kind) |-> 0]]]
     \/ e.op = "gone" /\ UNCHANGED vars /\ e.blocks = 0 /\ e.records = 0 /\ e.bad = 0 /\ Obs(e, "live", 0) /\ Obs(e, "wrong", 0)
     \/ e.op \notin {"begin", "gone"} /\ UNCHANGED kind /\ Step(e) /\ Memory(e) /\ NeverStale'
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
