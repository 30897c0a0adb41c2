------------------------------ MODULE MemSpaces ------------------------------
(* Containers whose storage can exist in two memory spaces, the host (1) and the device (2) (ChaiBuffer).             *)
(* A container is made of blocks: its values, and for rows of values the sizes and the offsets of the rows, for       *)
(* matrices the entries, for arrays of arrays the blocks of the inner arrays. Per block: whether it has storage, the  *)
(* space it was last moved to, the spaces it was touched in since the copies last agreed, the spaces it has an        *)
(* allocation in, and the spaces whose copy holds what was last written (which the code does not record: it is what   *)
(* the protocol is there to ensure). A handle is the container itself or a view of it; it points to one of the copies.*)
EXTENDS Integers, Sequences, FiniteSets
H == 1
G == 2
Spaces == {H, G}
Objects == {1, 2}
Handles == {"own", "view", "sizes", "const", "other"}
VARIABLES kind,        \* of both containers
          obj,         \* per container: does it exist, its contents, its blocks
          ptr          \* per container, handle and part: the space of the copy the handle points to, 0: none
vars == <<kind, obj, ptr>>

Flat == {"array", "table", "sorted", "nested"}
Parts(k) == IF k = "nested" THEN {"v", "n"} ELSE IF k \in Flat THEN {"v"} ELSE IF k = "crs" THEN {"v", "z", "o", "e"} ELSE {"v", "z", "o"}
(* own: the container. view: toView. sizes: toViewConstSizes, for nested arrays toNestedView. const: toViewConst, for  *)
(* nested arrays toNestedViewConst. other: toArrayOfArraysView of sets, toSparsityPatternView of a matrix, toViewConst *)
(* of nested arrays (whose inner arrays can be written).                                                              *)
HandlesOf(k) ==
  CASE k \in {"array", "table", "sorted", "sparse"} -> {"own", "view", "const"}
    [] k = "aoa" -> {"own", "view", "sizes", "const"}
    [] k = "aos" -> {"own", "view", "const", "other"}
    [] OTHER -> Handles
Sees(k, h) == IF k = "crs" /\ h = "other" THEN {"v", "z", "o"} ELSE Parts(k)

(* What moving a handle touches when it is asked to, or when a handle is captured.                                    *)
Touches(k, h, s) ==
  CASE h \in {"own", "view"} /\ k \in {"array", "table"} -> {"v"}
    [] k = "sorted" -> IF h = "own" /\ s = H THEN {"v"} ELSE {}
    [] k = "nested" -> IF h \in {"own", "view"} THEN {"v", "n"} ELSE IF h \in {"sizes", "other"} THEN {"n"} ELSE {}
    \* offsets only by the container and only on the host
    [] h = "own" -> Parts(k) \ (IF s = H THEN {} ELSE {"o"})
    [] h = "view" -> Parts(k) \ {"o"}
    [] h = "sizes" -> IF k = "crs" THEN {"e"} ELSE {"v"}
    [] OTHER -> {}

NoBlock == [has |-> FALSE, last |-> 0, touched |-> {}, alloc |-> {}, fresh |-> {}]
OnHost == [has |-> TRUE, last |-> H, touched |-> {H}, alloc |-> {H}, fresh |-> {H}]
Gone == [live |-> FALSE, rows |-> <<>>, ents |-> <<>>, at |-> [p \in Parts(kind) |-> <<>>]]

(* One block is moved to s, and touched there if t: the contents are brought along if they were touched where they    *)
(* are, and then the copies agree.                                                                                    *)
Moved(b, s, t) ==
  IF ~b.has THEN b
  ELSE LET copied == b.last # s /\ b.last \in b.touched IN
       [b EXCEPT !.alloc = @ \cup {s},
                 !.fresh = IF b.last = s THEN @ ELSE IF copied THEN (IF b.last \in @ THEN @ \cup {s} ELSE @ \ {s}) ELSE IF s \in b.alloc THEN @ ELSE @ \ {s},
                 !.touched = (IF copied THEN {} ELSE @) \cup (IF t THEN {s} ELSE {}),
                 !.last = s]
Outer(o) == o.at["v"][1]
(* All the blocks that handle h sees are moved, those of the inner arrays with the values that contain them.           *)
MovedTo(o, h, s, t) ==
  [o EXCEPT !.at = [p \in Parts(kind) |->
     IF p \notin Sees(kind, h) \/ (p = "n" /\ ~Outer(o).has) THEN o.at[p]
     ELSE [k \in DOMAIN o.at[p] |-> Moved(o.at[p][k], s, t /\ p \in Touches(kind, h, s))]]]
(* The parts W were written where they are. *)
Written(o, W, rows, ents) ==
  [o EXCEPT !.rows = rows, !.ents = ents,
            !.at = [p \in Parts(kind) |-> IF p \in W THEN [k \in DOMAIN o.at[p] |-> IF o.at[p][k].has THEN [o.at[p][k] EXCEPT !.fresh = {o.at[p][k].last}] ELSE o.at[p][k]] ELSE o.at[p]]]

Blocks(o, P) == {o.at[p][k] : <<p, k>> \in {<<q, j>> \in P \X (1..20) : j \in DOMAIN o.at[q]}}
(* The handle points to the copies that were used last. *)
HereAt(o, pt, h) ==
  /\ o.live
  /\ \A p \in Sees(kind, h) \ {"n"} : \A k \in DOMAIN o.at[p] : o.at[p][k].has => pt[p] = o.at[p][k].last
  /\ kind = "nested" => \A b \in Blocks(o, {"n"}) : b.has => b.last = Outer(o).last
Here(x, h) == HereAt(obj[x], ptr[x][h], h)
In(x, P, s) == \A b \in Blocks(obj[x], P) : b.has => b.last = s
TouchedIn(x, P) == \A b \in Blocks(obj[x], P) : b.has => b.last \in b.touched

(* What a client has to do before it changes the container on the host: move it there, touching it; an array may be    *)
(* resized without the touch.                                                                                         *)
HostHere(x) == Here(x, "own") /\ In(x, Parts(kind), H)
HostReady(x) == HostHere(x) /\ TouchedIn(x, Parts(kind))

NoPtr == [p \in Parts(kind) |-> 0]
(* where a handle points after a move to s: where there is storage, there *)
PtrTo(o, h, s, old) == [p \in Parts(kind) |-> IF p \in Sees(kind, h) /\ p # "n" /\ o.at[p] # <<>> /\ o.at[p][1].has THEN s ELSE old[p]]

Make(x, rows, ents, at) ==
  /\ \A b \in Blocks([at |-> at], Parts(kind)) : b = (IF b.has THEN OnHost ELSE NoBlock)
  /\ obj' = [obj EXCEPT ![x] = [live |-> TRUE, rows |-> rows, ents |-> ents, at |-> at]]
  /\ ptr' = [ptr EXCEPT ![x] = [h \in Handles |-> IF h = "own" THEN PtrTo(obj'[x], "own", H, NoPtr) ELSE NoPtr]]
(* A view is taken: it points where the container points. *)
Take(x, h) == /\ obj[x].live /\ h \in HandlesOf(kind) \ {"own"}
              /\ ptr' = [ptr EXCEPT ![x][h] = [p \in Parts(kind) |-> IF p \in Sees(kind, h) THEN ptr[x]["own"][p] ELSE 0]]
              /\ UNCHANGED obj
Exists(x, h) == obj[x].live /\ (h = "own" \/ ptr[x][h] # NoPtr)
Move(x, h, s, t) ==
  /\ Exists(x, h)
  /\ obj' = [obj EXCEPT ![x] = MovedTo(obj[x], h, s, t)]
  /\ ptr' = [ptr EXCEPT ![x][h] = PtrTo(obj'[x], h, s, ptr[x][h])]
(* A loop in s captures a view: the copy of the view that the loop has points there, and is touched. *)
Capture(x, h, s) ==
  /\ Exists(x, h) /\ h # "own"
  /\ obj' = [obj EXCEPT ![x] = MovedTo(obj[x], h, s, TRUE)]
  /\ UNCHANGED ptr
(* What the loop changes. W: the parts it writes, which the view has to touch. *)
Kernel(x, h, s, W, rows, ents) ==
  /\ Exists(x, h) /\ h # "own" /\ W \subseteq Touches(kind, h, s)
  /\ obj' = [obj EXCEPT ![x] = Written(MovedTo(obj[x], h, s, TRUE), W, rows, ents)]
  /\ UNCHANGED ptr
(* A change through a handle, where it is. *)
Write(x, h, W, rows, ents) ==
  /\ Exists(x, h) /\ Here(x, h) /\ TouchedIn(x, W) /\ W \subseteq Touches(kind, h, H)
  /\ obj' = [obj EXCEPT ![x] = Written(obj[x], W, rows, ents)]
  /\ UNCHANGED ptr
RegisterTouch(x, h) ==
  /\ Exists(x, h) /\ Here(x, h) /\ h \in {"own", "view"} /\ kind \in {"array", "table", "aoa"}
  /\ \A p, q \in Parts(kind) : Outer(obj[x]).has /\ In(x, {p}, Outer(obj[x]).last)
  /\ obj' = [obj EXCEPT ![x].at = [p \in Parts(kind) |-> [k \in DOMAIN obj[x].at[p] |-> IF obj[x].at[p][k].has THEN [obj[x].at[p][k] EXCEPT !.touched = @ \cup {Outer(obj[x]).last}] ELSE obj[x].at[p][k]]]]
  /\ UNCHANGED ptr
(* An operation of the container on the host that may get new storage: at is what the blocks are afterwards, which the *)
(* code chooses, but no copy may be left behind.                                                                      *)
HostChange(x, rows, ents, at) ==
  /\ obj[x].live /\ obj' = [obj EXCEPT ![x] = [live |-> TRUE, rows |-> rows, ents |-> ents, at |-> at]]
  /\ \A b \in Blocks(obj'[x], Parts(kind)) : b.has => b.last = H
  /\ ptr' = [ptr EXCEPT ![x] = [h \in Handles |-> IF h = "own" THEN PtrTo(obj'[x], "own", H, NoPtr) ELSE NoPtr]]
(* A resize on the device of an array without values, and then a loop there that sets all of the new values.           *)
DeviceFill(x, rows, at, own) ==
  /\ obj[x].live /\ kind = "array" /\ obj[x].rows = <<<<>>>>
  /\ \A b \in Blocks([at |-> at], {"v"}) : b.has => b.last = G /\ b.fresh = {G} /\ b.touched = {G}
  /\ obj' = [obj EXCEPT ![x].rows = rows, ![x].at = at]
  /\ ptr' = [ptr EXCEPT ![x] = [h \in Handles |-> IF h = "own" THEN own ELSE NoPtr]]
(* All values are set, in the space the container was last used in (zero) or by a loop in s (setValues). *)
All(o, h, v) == LET r == IF kind = "crs" THEN o.ents ELSE o.rows IN [i \in DOMAIN r |-> [j \in DOMAIN r[i] |-> v]]
Values == IF kind = "crs" THEN "e" ELSE "v"
SetAll(o, h, v) == IF kind = "crs" THEN Written(o, {"e"}, o.rows, All(o, h, v)) ELSE Written(o, {"v"}, All(o, h, v), o.ents)
Total(o) == LET RECURSIVE Sum(_) Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) + Len(o.rows[i]) IN Sum(Len(o.rows))
Zero(x, h) ==
  /\ Exists(x, h) /\ kind \in {"array", "table", "crs"} /\ h \in {"own", "view", "sizes"}
  \* the blocks of a matrix may have been used in different spaces: a view of the pattern alone was moved
  /\ IF (kind = "crs" /\ ~obj[x].at["e"][1].has) \/ (kind # "crs" /\ Total(obj[x]) = 0) THEN UNCHANGED vars
     ELSE LET s == obj[x].at[Values][1].last o == MovedTo(obj[x], h, s, FALSE)
              p == [o EXCEPT !.at[Values] = [k \in DOMAIN o.at[Values] |-> Moved(o.at[Values][k], s, TRUE)]] IN
          /\ obj' = [obj EXCEPT ![x] = SetAll(p, h, 0)]
          /\ ptr' = [ptr EXCEPT ![x][h] = PtrTo(o, h, s, ptr[x][h])]
Fill(x, h, s, v) ==
  /\ Exists(x, h) /\ kind \in {"array", "table", "crs"} /\ h \in {"own", "view", "sizes"}
  /\ obj' = [obj EXCEPT ![x] = SetAll(MovedTo(obj[x], IF kind = "crs" THEN "sizes" ELSE "view", s, TRUE), h, v)]
  /\ UNCHANGED ptr
(* The values of array y are copied into array x, between the spaces they were last used in. *)
CopyValues(x, y) ==
  /\ x # y /\ kind = "array" /\ obj[x].live /\ obj[y].live /\ Total(obj[x]) = Total(obj[y]) /\ Total(obj[x]) > 0
  /\ obj' = [obj EXCEPT ![x] = Written(MovedTo(obj[x], "view", Outer(obj[x]).last, TRUE), {"v"}, obj[y].rows, obj[y].ents)]
  /\ UNCHANGED ptr
Copy(x, y, at) ==
  /\ x # y /\ HostHere(y) /\ (obj[x].live => HostReady(x))
  /\ \A b \in Blocks([at |-> at], Parts(kind)) : b.has => b.last = H
  /\ obj' = [obj EXCEPT ![x] = [live |-> TRUE, rows |-> obj[y].rows, ents |-> obj[y].ents, at |-> at]]
  /\ ptr' = [ptr EXCEPT ![x] = [h \in Handles |-> IF h = "own" THEN PtrTo(obj'[x], "own", H, NoPtr) ELSE NoPtr]]
OnlyOwn(f) == [h \in Handles |-> IF h = "own" THEN f["own"] ELSE NoPtr]
(* y is moved into x, whose storage is freed in whatever space it is, and y is destroyed. *)
MoveInto(x, y) ==
  /\ x # y /\ obj[y].live
  /\ obj' = [obj EXCEPT ![x] = obj[y], ![y] = Gone]
  /\ ptr' = [ptr EXCEPT ![x] = OnlyOwn(ptr[y]), ![y] = [h \in Handles |-> NoPtr]]
Swap ==
  /\ obj[1].live /\ obj[2].live
  /\ obj' = [x \in Objects |-> obj[3 - x]] /\ ptr' = [x \in Objects |-> OnlyOwn(ptr[3 - x])]
Free(x) == /\ obj[x].live /\ obj' = [obj EXCEPT ![x] = Gone] /\ ptr' = [ptr EXCEPT ![x] = [h \in Handles |-> NoPtr]]

(* ------------------------------------------------------------------ the contents -------------------------------- *)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Place(s, v) == CHOOSE i \in 1..(Len(s) + 1) : (\A j \in 1..(i - 1) : s[j] < v) /\ (\A j \in i..Len(s) : ~(s[j] < v))
Put(s, i, v) == SubSeq(s, 1, i - 1) \o <<v>> \o SubSeq(s, i, Len(s))
Member(s, v) == \E i \in DOMAIN s : s[i] = v
Sorted1(s, v) == IF Member(s, v) THEN s ELSE Put(s, Place(s, v), v)
Cut1(s, v) == IF Member(s, v) THEN Without(s, Place(s, v)) ELSE s
Upto(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
Padded(s, n, v) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE v]

(* -------------------------------------------------------------------- what holds --------------------------------- *)
(* The copy used last holds what was last written, and so does every other copy unless the next move brings it along. *)
Coherent(b) == b.has => /\ b.last \in b.alloc \cap b.fresh
                        /\ \A s \in Spaces \ {b.last} : s \in b.alloc \cap b.fresh \/ b.last \in b.touched
                        /\ b.touched \subseteq {b.last}
NeverStale == \A x \in Objects : \A b \in Blocks(obj[x], Parts(kind)) : Coherent(b)
(* So a handle moved to a space reads there what was last written. *)
ReadsLatest == \A x \in Objects : \A h \in HandlesOf(kind) : (Exists(x, h) /\ Here(x, h)) =>
                 \A b \in Blocks(obj[x], Sees(kind, h)) : b.has => b.last \in b.fresh
=============================================================================
