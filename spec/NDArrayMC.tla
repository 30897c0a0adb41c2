----------------------------- MODULE NDArrayMC ------------------------------
EXTENDS NDArray, Json
CONSTANTS Dims, MaxExtent, MaxDepth
VARIABLE path
Op(o) == path' = Append(path, o)
Perms(n) == {p \in [1..n -> 0..(n - 1)] : Range(p) = 0..(n - 1)}
Each(x) == [o \in Objs |-> x]
(* Array 1 starts with extents 1, 2, 3, ..., its elements numbered, and any selected dimension; the others are empty. *)
Start(p, k) ==
  LET n == Len(p)
      d == [j \in 1..n |-> IF n = 1 THEN 2 ELSE j]
      z == [j \in 1..n |-> 0]
  IN /\ perm = p /\ dims = [o \in Objs |-> IF o = 1 THEN d ELSE z]
     /\ data = [o \in Objs |-> IF o = 1 THEN [q \in 1..Size(d) |-> 20 + Dot(Strides(Identity(n), d), Digits(d, Strides(p, d), q - 1))] ELSE <<>>]
     /\ sel = [o \in Objs |-> IF o = 1 THEN k ELSE 0] /\ known = Each(TRUE) /\ cap = [o \in Objs |-> IF o = 1 THEN Size(d) ELSE 0] /\ addr = [o \in Objs |-> IF o = 1 THEN 1 ELSE 0]
     /\ path = <<[op |-> "new", perm |-> p, d |-> d, k |-> k, v |-> 20]>>
Init == \E n \in Dims : \E p \in Perms(n) : \E k \in 0..(n - 1) : Start(p, k)
Pool == 1..(Cardinality(Objs) + 1)
Unused(o) == CHOOSE p \in Pool : \A q \in Objs : addr[q] # p
Grown(o, n) == cap' = [cap EXCEPT ![o] = IF n > @ THEN n ELSE @] /\ addr' = [addr EXCEPT ![o] = IF n > cap[o] THEN Unused(o) ELSE @]
Still == UNCHANGED <<cap, addr>>
(* a few extents for resizing everything *)
Shapes == {[k \in 1..ND |-> k], [k \in 1..ND |-> (k % 2) + 1], [k \in 1..ND |-> IF k = 1 THEN 0 ELSE 2]}
Zeros(n) == [k \in 1..n |-> 0]
Next ==
  \/ \E o \in Objs :
     \/ \E n \in 0..MaxExtent : Grown(o, Size(With(o, n))) /\ ResizeOne(o, n, 0) /\ Op([op |-> "resize", o |-> o, n |-> n])
     \/ \E n \in 1..MaxExtent : Grown(o, Size(With(o, n))) /\ ResizeOne(o, n, 7) /\ Op([op |-> "resizeDefault", o |-> o, n |-> n, v |-> 7])
     \/ \E d \in Shapes : Grown(o, Size(d)) /\ ResizeAll(o, d, IF ND = 1 THEN Kept(d, dims[o], data[o], 0) ELSE Zeros(Size(d))) /\ Op([op |-> "resizeAll", o |-> o, d |-> d, alt |-> Len(path)])
     \/ Still /\ Clear(o) /\ Op([op |-> "clear", o |-> o])
     \/ \E k \in 0..(ND - 1) : sel[o] # k /\ Still /\ Select(o, k) /\ Op([op |-> "select", o |-> o, k |-> k])
     \/ \E k \in {-1, ND} : Still /\ Refused /\ Op([op |-> "badSelect", o |-> o, k |-> k])
     \/ Still /\ Refused /\ Op([op |-> "badResize", o |-> o, form |-> (Len(path) + 3 * o + 2 * sel[o] + Len(data[o])) % 7])
     \/ data[o] # <<>> /\ Still /\ NumberAll(o, 10) /\ Op([op |-> "number", o |-> o, v |-> 10])
     \/ \E p \in Objs :
        \/ Grown(o, Len(data[p])) /\ CopyAssign(o, p) /\ Op([op |-> "copyAssign", o |-> o, p |-> p])
        \/ o # p /\ cap' = [cap EXCEPT ![o] = cap[p], ![p] = 0] /\ addr' = [addr EXCEPT ![o] = addr[p], ![p] = 0] /\ Move(o, p) /\ Op([op |-> "moveAssign", o |-> o, p |-> p])
        \/ cap' = [cap EXCEPT ![o] = Len(data[p])] /\ addr' = [addr EXCEPT ![o] = IF data[p] = <<>> THEN 0 ELSE Unused(o)] /\ CopyConstruct(o, p) /\ Op([op |-> "copyConstruct", o |-> o, p |-> p])
        \/ o < p /\ Swap(o, p) /\ Op([op |-> "swap", o |-> o, p |-> p])
Spec == Init /\ [][Next]_<<vars, path>>
Bound == Len(path) <= MaxDepth
View == <<perm, dims, data, sel, known>>
Emit == PrintT("@" \o ToJson(path'))
Same == \A o \in Objs : Len(data[o]) = Size(dims[o])
(* What resizing along one dimension promises, element by element. *)
Resizing == path' # path /\ path'[Len(path')].op \in {"resize", "resizeDefault"}
ElementsKept ==
  [][Resizing =>
      LET a == path'[Len(path')]
          o == a.o
          L == LexIndices(dims'[o])
          v == IF a.op = "resize" THEN 0 ELSE a.v
      IN /\ \A k \in 1..ND : dims'[o][k] = IF k = sel[o] + 1 THEN a.n ELSE dims[o][k]
         /\ \A m \in DOMAIN L : data'[o][Pos(perm, dims'[o], L[m]) + 1] = IF Inside(dims[o], L[m]) THEN At(o, L[m]) ELSE v]_<<vars, path>>
OthersUntouched ==
  [][path' # path => LET a == path'[Len(path')] IN \A q \in Objs : q # a.o /\ (data'[q] # data[q] \/ dims'[q] # dims[q]) => a.op \in {"moveAssign", "swap"} /\ q = a.p]_<<vars, path>>
CapacityNeverLowered == [][path' # path /\ path'[Len(path')].op \notin {"moveAssign", "swap", "copyConstruct"} => \A o \in Objs : cap'[o] >= cap[o]]_<<vars, path>>
=============================================================================
