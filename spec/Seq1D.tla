------------------------------- MODULE Seq1D --------------------------------
(* One-dimensional arrays: each object holds a sequence in storage of some capacity at some address. Positions count *)
(* from 0. How much an array grows is its own choice; that it keeps its storage while the contents fit is not.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Objs,
          StorageRules      \* FALSE: leave out what is said about capacity and storage
VARIABLES seq, cap, addr
vars == <<seq, cap, addr>>
Take(x, n) == SubSeq(x, 1, n)
Drop(x, n) == SubSeq(x, n + 1, Len(x))
InsertRange(x, i, vals) == Take(x, i) \o vals \o Drop(x, i)
EraseAt(x, i) == Take(x, i) \o Drop(x, i + 1)
Fill(n, v) == [k \in 1..n |-> v]
Resized(x, n, v) == IF n <= Len(x) THEN Take(x, n) ELSE x \o Fill(n - Len(x), v)

(* The storage of everything but the objects in S stays as it is. *)
KeepStorage(S) == StorageRules => \A q \in Objs \ S : cap'[q] = cap[q] /\ addr'[q] = addr[q]
(* Object o needs room for n elements. *)
Room(o, n) ==
  /\ StorageRules => IF n <= cap[o] THEN cap'[o] = cap[o] /\ addr'[o] = addr[o] ELSE cap'[o] >= n
  /\ KeepStorage({o})
Become(o, x) == seq' = [seq EXCEPT ![o] = x]
Change(o, x) == Become(o, x) /\ Room(o, Len(x))

Push(o, v) == Change(o, Append(seq[o], v))
Insert(o, i, vals) == i \in 0..Len(seq[o]) /\ Change(o, InsertRange(seq[o], i, vals))
Pop(o) == Len(seq[o]) > 0 /\ Change(o, Front(seq[o]))
Erase(o, i) == i < Len(seq[o]) /\ Change(o, EraseAt(seq[o], i))
Resize(o, n, v) == Change(o, Resized(seq[o], n, v))
Reserve(o, n) == UNCHANGED seq /\ Room(o, n)
Clear(o) == Change(o, <<>>)
FillAll(o, v) == Change(o, Fill(Len(seq[o]), v))
Write(o, i, v) == i < Len(seq[o]) /\ Change(o, [seq[o] EXCEPT ![i + 1] = v])
CopyAssign(o, p) == Change(o, seq[p])
(* The target takes over the storage of the source, the source is left empty. *)
MoveAssign(o, p) ==
  IF o = p THEN (UNCHANGED seq \/ Become(o, <<>>)) /\ KeepStorage({o})     \* onto itself: valid, nothing more
  ELSE /\ seq' = [seq EXCEPT ![o] = seq[p], ![p] = <<>>]
       /\ (StorageRules => cap'[o] = cap[p] /\ addr'[o] = addr[p]) /\ KeepStorage({o, p})
Fresh(o, x) == Become(o, x) /\ KeepStorage({o})
CopyConstruct(o, p) == Fresh(o, seq[p])
(* o is replaced by an object constructed by moving from p. *)
MoveConstruct(o, p) == MoveAssign(o, p)
Swap(o, p) ==
  /\ seq' = [seq EXCEPT ![o] = seq[p], ![p] = seq[o]]
  /\ StorageRules => cap' = [cap EXCEPT ![o] = cap[p], ![p] = cap[o]] /\ addr' = [addr EXCEPT ![o] = addr[p], ![p] = addr[o]]
(* copying all values of an equally long array *)
CopyValues(o, p) == Len(seq[o]) = Len(seq[p]) /\ Change(o, seq[p])
Look == UNCHANGED seq /\ KeepStorage({})
Enough == \A o \in Objs : cap[o] >= Len(seq[o])
=============================================================================
