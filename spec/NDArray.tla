------------------------------ MODULE NDArray -------------------------------
(* Arrays with any number of dimensions under histories of resizing, writing and copying. data[o] is the storage of  *)
(* array o in memory order. All arrays of a world have the same layout perm.                                         *)
EXTENDS Layout, TLC
CONSTANTS Objs, StorageRules
VARIABLES perm,
          dims, data,
          sel,            \* the dimension that the single-parameter operations resize
          known,          \* FALSE for an array that was moved from: empty, its strides are not defined until it is resized
          cap, addr
vars == <<perm, dims, data, sel, known, cap, addr>>
ND == Len(perm)
(* The value of the element with the multi-index. *)
At(o, idx) == data[o][Pos(perm, dims[o], idx) + 1]
KeepStorage(K) == StorageRules => \A q \in Objs \ K : cap'[q] = cap[q] /\ addr'[q] = addr[q]
Room(o, n) ==
  /\ StorageRules => IF n <= cap[o] THEN cap'[o] = cap[o] /\ addr'[o] = addr[o] ELSE cap'[o] >= n
  /\ KeepStorage({o})
Set(o, d, x) ==
  /\ dims' = [dims EXCEPT ![o] = d] /\ data' = [data EXCEPT ![o] = x] /\ known' = [known EXCEPT ![o] = TRUE]
  /\ UNCHANGED <<perm, sel>>
SetAndRoom(o, d, x) == Set(o, d, x) /\ Room(o, Len(x))
(* Storage of extents d holding, at every multi-index of both d and e, what x holds there for extents e, and v elsewhere. *)
Kept(d, e, x, v) ==
  LET s == Strides(perm, d)
      t == Strides(perm, e)
  IN [p \in 1..Size(d) |-> LET idx == Digits(d, s, p - 1) IN IF Inside(e, idx) THEN x[Dot(t, idx) + 1] ELSE v]
With(o, n) == [dims[o] EXCEPT ![sel[o] + 1] = n]
ResizeOne(o, n, v) == n >= 0 /\ SetAndRoom(o, With(o, n), Kept(With(o, n), dims[o], data[o], v))
(* Resizing all dimensions, or some of them by name: the extents are as requested. The values x are promised only for one dimension. *)
ResizeAll(o, d, x) ==
  /\ Len(d) = ND /\ \A k \in 1..ND : d[k] >= 0
  /\ Len(x) = Size(d) /\ (ND = 1 => x = Kept(d, dims[o], data[o], 0))
  /\ SetAndRoom(o, d, x)
(* the same without initialization, after which every element is written *)
ResizeRaw(o, d, v) == SetAndRoom(o, d, [p \in 1..Size(d) |-> v])
Clear(o) == SetAndRoom(o, With(o, 0), <<>>)
Select(o, k) == k \in 0..(ND - 1) /\ sel' = [sel EXCEPT ![o] = k] /\ UNCHANGED <<perm, dims, data, known>> /\ KeepStorage({})
Reserve(o, n) == UNCHANGED <<perm, dims, data, sel, known>> /\ Room(o, n)
Change(o, x) == data' = [data EXCEPT ![o] = x] /\ UNCHANGED <<perm, dims, sel, known>> /\ KeepStorage({})
FillAll(o, v) == Change(o, [p \in DOMAIN data[o] |-> v])
Write(o, idx, v) == Inside(dims[o], idx) /\ Change(o, [data[o] EXCEPT ![Pos(perm, dims[o], idx) + 1] = v])
(* Element number m in lexicographic order gets the value v + m. *)
NumberAll(o, v) ==
  LET s == Strides(Identity(ND), dims[o])
      t == Strides(perm, dims[o])
  IN Change(o, [p \in DOMAIN data[o] |-> v + Dot(s, Digits(dims[o], t, p - 1))])
CopyValues(o, p) == dims[o] = dims[p] /\ Change(o, data[p])
Refused == UNCHANGED <<perm, dims, data, sel, known>> /\ KeepStorage({})
(* Values laid out in another order, numbered from v row by row: refused, unless the layouts agree or the values end up   *)
(* at the same indices all the same; never when both the dimensions and the strides are the target's own.                *)
CopyOther(o, d, s, v, refused) ==
  IF refused THEN (d # dims[o] \/ s # Strides(perm, dims[o])) /\ Refused
  ELSE d = dims[o] /\ NumberAll(o, v)
Copy(o, p) ==
  /\ dims' = [dims EXCEPT ![o] = dims[p]] /\ data' = [data EXCEPT ![o] = data[p]] /\ known' = [known EXCEPT ![o] = known[p]] /\ sel' = [sel EXCEPT ![o] = sel[p]]
  /\ UNCHANGED perm
CopyAssign(o, p) == Copy(o, p) /\ Room(o, Len(data[p]))
CopyConstruct(o, p) == Copy(o, p) /\ KeepStorage({o})
None == [k \in 1..ND |-> 0]
(* The target takes over contents and storage, the source is left empty. *)
Move(o, p) ==
  IF o = p
    THEN UNCHANGED <<perm, sel>> /\ KeepStorage({o}) /\
         (UNCHANGED <<dims, data, known>> \/ (dims' = [dims EXCEPT ![o] = None] /\ data' = [data EXCEPT ![o] = <<>>] /\ known' = [known EXCEPT ![o] = FALSE]))
    ELSE /\ dims' = [dims EXCEPT ![o] = dims[p], ![p] = None] /\ data' = [data EXCEPT ![o] = data[p], ![p] = <<>>]
         /\ known' = [known EXCEPT ![o] = known[p], ![p] = FALSE] /\ sel' = [sel EXCEPT ![o] = sel[p]]
         /\ UNCHANGED perm
         /\ (StorageRules => cap'[o] = cap[p] /\ addr'[o] = addr[p]) /\ KeepStorage({o, p})
Swap(o, p) ==
  LET X(f) == [f EXCEPT ![o] = f[p], ![p] = f[o]] IN
  /\ dims' = X(dims) /\ data' = X(data) /\ known' = X(known) /\ sel' = X(sel) /\ UNCHANGED perm
  /\ StorageRules => cap' = X(cap) /\ addr' = X(addr)
Fresh(o, d, x) ==
  /\ dims' = [dims EXCEPT ![o] = d] /\ data' = [data EXCEPT ![o] = x] /\ known' = [known EXCEPT ![o] = TRUE] /\ sel' = [sel EXCEPT ![o] = 0]
  /\ UNCHANGED perm /\ KeepStorage({o})
Look == Refused
Enough == \A o \in Objs : cap[o] >= Len(data[o]) /\ Len(data[o]) = Size(dims[o])
=============================================================================
