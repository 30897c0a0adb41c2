------------------------------- MODULE VastMC -------------------------------
(* Numbers as digit sequences behave as numbers, and layouts over them agree with Layout.                              *)
EXTENDS Vast, FiniteSets
L == INSTANCE Layout
CONSTANTS Extents
VARIABLES perm, dims
Perms(n) == {p \in [1..n -> 0..(n - 1)] : L!Range(p) = 0..(n - 1)}
Init == \E n \in 1..3 : perm \in Perms(n) /\ dims \in [1..n -> Extents]
Next == UNCHANGED <<perm, dims>>
Spec == Init /\ [][Next]_<<perm, dims>>
V(x) == [k \in DOMAIN x |-> Num(x[k])]
I(x) == [k \in DOMAIN x |-> Value(x[k])]
Samples(d) == {x \in {0, 1, d \div 2, d - 1} : x >= 0 /\ x < d}
Indices == {x \in [1..Len(dims) -> UNION {Samples(dims[k]) : k \in 1..Len(dims)}] : \A k \in 1..Len(dims) : x[k] < dims[k]}
Canonical(x) == Trim(x) = x /\ \A k \in DOMAIN x : x[k] \in 0..(B - 1)
Agrees ==
  /\ I(VStrides(perm, V(dims))) = L!Strides(perm, dims) /\ Value(VSize(V(dims))) = L!Size(dims)
  /\ \A k \in 1..Len(dims) : Canonical(VStrides(perm, V(dims))[k])
  /\ \A x \in Indices : Value(VPos(perm, V(dims), V(x))) = L!Pos(perm, dims, x) /\ VInside(V(dims), V(x))
  /\ \A n \in 0..(Len(dims) - 1), x \in Indices : LET p == SubSeq(x, 1, n) IN Value(VSliceStart(perm, V(dims), V(p))) = L!SliceStart(perm, dims, p)
Arithmetic ==
  dims = <<0>> => \A x, y \in Extents \cup {10 * e + 9999 : e \in Extents} :
    /\ Value(Num(x)) = x /\ Value(Plus(Num(x), Num(y))) = x + y /\ (Less(Num(x), Num(y)) <=> x < y)
    /\ x * y < 2000000000 => Value(Times(Num(x), Num(y))) = x * y
    \* also where integers do not reach: multiplication distributes over sums, and division by a factor gives it back
    /\ \A z \in Extents : LET big == Times(Times(Num(x), Num(y)), Num(x)) IN
         /\ Times(big, Plus(Num(y), Num(z))) = Plus(Times(big, Num(y)), Times(big, Num(z)))
         /\ Times(big, Num(z)) = Times(Num(z), big) /\ Times(Times(big, Num(y)), Num(z)) = Times(big, Times(Num(y), Num(z)))
         /\ (z > 1 /\ big # <<>>) => Less(big, Times(big, Num(z)))
=============================================================================
