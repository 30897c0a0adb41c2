-------------------------------- MODULE Rows --------------------------------
(* What all containers of rows (arrays of arrays, arrays of sets, sparsity patterns, sparse matrices) share: every    *)
(* object holds a sequence of rows, a row is a sequence, and each row has a capacity of its own inside one storage     *)
(* area. How much a row grows is the container's own choice; that nothing moves while everything fits is not.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Objs,
          StorageRules      \* FALSE: leave out what is said about capacity and storage
VARIABLES rows,             \* object -> sequence of rows
          caps,             \* object -> capacity of each row
          mem,              \* object -> [vcap: room for elements, rcap: room for rows, addr: where the elements are, starts: where each row begins]
          ok                \* object -> FALSE once it has been moved from
rvars == <<rows, caps, mem, ok>>
Take(x, n) == SubSeq(x, 1, n)
Drop(x, n) == SubSeq(x, n + 1, Len(x))
InsertRange(x, i, vals) == Take(x, i) \o vals \o Drop(x, i)
EraseRange(x, i, n) == Take(x, i) \o Drop(x, i + n)
Fill(n, v) == [k \in 1..n |-> v]
Resized(x, n, v) == IF n <= Len(x) THEN Take(x, n) ELSE x \o Fill(n - Len(x), v)
NRows(o) == Len(rows[o])
Row(o, i) == rows[o][i + 1]             \* rows and positions count from 0
Cap(o, i) == caps[o][i + 1]
Rule(p) == StorageRules => p

(* What always holds: rows lie one after the other inside the storage, without overlap and within their capacity. *)
SumSeq(s) == FoldSeq(LAMBDA x, n : x + n, 0, s)
Layout(rs, cs, m) ==
  /\ Len(cs) = Len(rs) /\ Len(m.starts) = Len(rs) /\ m.rcap >= Len(rs)
  /\ \A i \in 1..Len(rs) : /\ cs[i] >= Len(rs[i])
                           /\ m.starts[i] >= 0
                           /\ m.starts[i] + cs[i] <= IF i = Len(rs) THEN m.vcap ELSE m.starts[i + 1]
LaidOut == \A o \in Objs : ok[o] => Layout(rows[o], caps[o], mem[o])
LaidOutNext == \A o \in Objs : ok'[o] => Layout(rows'[o], caps'[o], mem'[o])

Others(S) == Rule(\A q \in Objs \ S : caps'[q] = caps[q] /\ mem'[q] = mem[q])
SameStorage(o) == Rule(caps'[o] = caps[o] /\ mem'[o] = mem[o]) /\ Others({o})
Become(o, x) == rows' = [rows EXCEPT ![o] = x]
(* All rows get the stated capacities. *)
Caps(o, cs) == Rule(caps'[o] = cs) /\ Others({o})
KeepRoom(o) == Rule(mem'[o].vcap >= mem[o].vcap /\ mem'[o].rcap >= mem[o].rcap)
Using(S) == \A o \in S : ok[o]

(* Row i becomes x: nothing is reallocated when x fits; another row never notices. *)
RowRoom(o, i, n) ==
  /\ Others({o})
  /\ Rule(IF n <= Cap(o, i) THEN caps'[o] = caps[o] /\ mem'[o] = mem[o]
          ELSE /\ \A k \in 0..(NRows(o) - 1) : IF k = i THEN caps'[o][k + 1] >= n ELSE caps'[o][k + 1] = Cap(o, k)
               /\ KeepRoom(o))
SetRow(o, i, x) == rows' = [rows EXCEPT ![o][i + 1] = x]
ChangeRow(o, i, x) == Using({o}) /\ i \in 0..(NRows(o) - 1) /\ SetRow(o, i, x) /\ RowRoom(o, i, Len(x)) /\ UNCHANGED ok

(* A new row x before row i. *)
NewRow(o, i, x, n) ==
  /\ Using({o}) /\ i \in 0..NRows(o)
  /\ Become(o, InsertRange(rows[o], i, <<x>>)) /\ UNCHANGED ok /\ Others({o})
  /\ Rule(/\ Len(caps'[o]) = NRows(o) + 1 /\ EraseRange(caps'[o], i, 1) = caps[o] /\ caps'[o][i + 1] >= n
          /\ KeepRoom(o))
EraseRow(o, i) ==
  /\ Using({o}) /\ i \in 0..(NRows(o) - 1)
  /\ Become(o, EraseRange(rows[o], i, 1)) /\ UNCHANGED ok
  /\ Caps(o, EraseRange(caps[o], i, 1)) /\ KeepRoom(o) /\ Rule(mem'[o].addr = mem[o].addr)
(* Resizing to n rows; a new row is empty and has capacity c. *)
ResizeRows(o, n, c) ==
  /\ Become(o, Resized(rows[o], n, <<>>)) /\ ok' = [ok EXCEPT ![o] = TRUE]
  /\ Caps(o, Resized(caps[o], n, c)) /\ KeepRoom(o)
(* The row capacity becomes exactly n; what does not fit any more is cut off. *)
SetCap(o, i, n) ==
  /\ Using({o}) /\ i \in 0..(NRows(o) - 1)
  /\ SetRow(o, i, IF n < Len(Row(o, i)) THEN Take(Row(o, i), n) ELSE Row(o, i)) /\ UNCHANGED ok
  /\ Caps(o, [caps[o] EXCEPT ![i + 1] = n]) /\ KeepRoom(o)
  /\ Rule(n <= Cap(o, i) => mem'[o].addr = mem[o].addr)
(* Room for at least n in row i, never less than there was. *)
ReserveRow(o, i, n) ==
  /\ Using({o}) /\ i \in 0..(NRows(o) - 1) /\ UNCHANGED <<rows, ok>> /\ Others({o})
  /\ Rule(IF n <= Cap(o, i) THEN caps'[o] = caps[o] /\ mem'[o] = mem[o]
          ELSE caps'[o][i + 1] >= n /\ (\A k \in (1..NRows(o)) \ {i + 1} : caps'[o][k] = caps[o][k]) /\ KeepRoom(o))
ReserveRows(o, n) ==
  /\ Using({o}) /\ UNCHANGED <<rows, ok>> /\ Caps(o, caps[o])
  /\ Rule(mem'[o].rcap >= n /\ KeepRoom(o) /\ mem'[o].addr = mem[o].addr)
ReserveElements(o, n) ==
  /\ Using({o}) /\ UNCHANGED <<rows, ok>> /\ Caps(o, caps[o])
  /\ Rule(mem'[o].vcap >= n /\ KeepRoom(o) /\ (n <= mem[o].vcap => mem'[o] = mem[o]))
Compress(o) ==
  /\ Using({o}) /\ UNCHANGED <<rows, ok>> /\ Caps(o, [i \in 1..NRows(o) |-> Len(rows[o][i])])
  /\ Rule(mem'[o].addr = mem[o].addr /\ KeepRoom(o))
(* Empty rows of the given capacities, whatever was there before. *)
Rebuild(o, cs) ==
  /\ Become(o, [i \in 1..Len(cs) |-> <<>>]) /\ ok' = [ok EXCEPT ![o] = TRUE]
  /\ Caps(o, cs) /\ KeepRoom(o)
Fresh(o, rs) == Become(o, rs) /\ ok' = [ok EXCEPT ![o] = TRUE] /\ Others({o})
FreshCaps(o, rs, cs) == Fresh(o, rs) /\ Rule(caps'[o] = cs)
CopyOf(o, p) == Using({p}) /\ Fresh(o, rows[p])
(* The target takes over the source's rows and storage; the source may afterwards only be destroyed or given a new   *)
(* value. Onto itself: kept or moved from.                                                                            *)
MoveOf(o, p) ==
  IF o = p THEN /\ Others({o})
                /\ \/ UNCHANGED <<rows, ok>>
                   \/ Become(o, <<>>) /\ ok' = [ok EXCEPT ![o] = FALSE]
  ELSE /\ rows' = [rows EXCEPT ![o] = rows[p], ![p] = <<>>] /\ ok' = [ok EXCEPT ![o] = ok[p], ![p] = FALSE]
       /\ Rule(caps'[o] = caps[p] /\ mem'[o] = mem[p]) /\ Others({o, p})
(* An object constructed by moving from p replaces o. *)
MoveConstructOf(o, p) == IF o = p THEN Others({}) /\ UNCHANGED <<rows, ok>> ELSE MoveOf(o, p)
Swap(o, p) ==
  /\ rows' = [rows EXCEPT ![o] = rows[p], ![p] = rows[o]] /\ ok' = [ok EXCEPT ![o] = ok[p], ![p] = ok[o]]
  /\ Rule(caps' = [caps EXCEPT ![o] = caps[p], ![p] = caps[o]] /\ mem' = [mem EXCEPT ![o] = mem[p], ![p] = mem[o]])
Look(o) == UNCHANGED <<rows, ok>> /\ Rule(UNCHANGED <<caps, mem>>)
=============================================================================
