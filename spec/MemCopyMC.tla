------------------------------ MODULE MemCopyMC -------------------------------
EXTENDS MemCopy, TLC, Json
CONSTANTS Most, Deep
VARIABLES case
mcvars == <<dst, src, case>>
Perms(n) == {p \in [1..n -> 0..(n - 1)] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Layouts == UNION {Perms(n) : n \in 1..3}
Prefixed(dims) == [k \in 1..Len(dims) |-> 0..(dims[k] - 1)]
Seqs(dims, n) == {x \in [1..n -> 0..2] : \A k \in 1..n : x[k] < dims[k]}
(* the layouts and prefix lengths whose slices have a fastest dimension, the same one *)
Fits(p, n, q, m) == /\ n < Len(p) /\ m < Len(q) /\ Len(p) - n = Len(q) - m
                    /\ p[Len(p)] - n = q[Len(q)] - m /\ p[Len(p)] >= n
Array(p, dims, base) == [perm |-> p, dims |-> dims, cells |-> [c \in 1..Size(dims) |-> base + c]]
Ends(k) == {0, k - 1}
(* the extents of the slices: the same, or one of them different *)
Others(d) == {d} \cup {[d EXCEPT ![k] = @ + 1] : k \in 1..Len(d)} \cup (IF Len(d) = 2 THEN {<<d[2], d[1]>>} ELSE {})
Lead(n) == IF n = 0 THEN {<<>>} ELSE IF n = 1 THEN {<<2>>, <<1>>} ELSE {<<2, 3>>, <<1, 2>>}
Final(lead) == [k \in DOMAIN lead |-> lead[k] - 1]
Sizes == <<1, 2, 3, 4, 6, 8, 12>>
Pairs == {<<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 6>>, <<6, 3>>, <<4, 4>>, <<2, 8>>, <<12, 4>>, <<4, 8>>, <<8, 4>>}
MCInit == case = <<>> /\ dst = Array(<<0>>, <<0>>, 0) /\ src = dst
MCNext ==
  \/ /\ case = <<>> /\ UNCHANGED <<dst, src>>
     /\ \/ \E p, q \in Layouts : \E n \in 0..(Len(p) - 1), m \in 0..(Len(q) - 1) : Fits(p, n, q, m) /\ case' = <<"copy", p, n, q, m>>
        \/ \E p \in Layouts : \E x \in Pairs : case' = <<"view", p, x[1], x[2]>>
        \/ \E p \in Layouts : \E n \in 1..(Len(p) - 1) : p[Len(p)] >= n /\ case' = <<"inside", p, n>>
  \/ /\ Len(case) = 5 /\ case[1] = "copy"
     /\ LET p == case[2] n == case[3] q == case[4] m == case[5] IN
        \E s \in [1..(Len(p) - n) -> IF Len(p) - n = 3 THEN {0, 1, 2} ELSE 0..Most] : \E d \in Others(s) : \E a \in Lead(n), b \in Lead(m) :
           /\ dst' = Array(p, a \o d, 100) /\ src' = Array(q, b \o s, 200)
           /\ case' = <<"copy", p, n, q, m, Final(a), Final(b)>>
  \/ /\ Len(case) = 3 /\ case[1] = "inside"
     /\ LET p == case[2] n == case[3] IN
        \E s \in [1..(Len(p) - n) -> 0..Most] : \E a \in Lead(n) \cup {IF n = 1 THEN <<3>> ELSE <<2, 2>>} : \E x, y \in Seqs(a, n) :
           /\ x # y /\ dst' = Array(p, a \o s, 100) /\ UNCHANGED src
           /\ case' = <<"inside", p, n, x, y>>
  \/ /\ Len(case) = 4 /\ case[1] = "view"
     /\ LET p == case[2] IN
        \E d \in [1..Len(p) -> IF Len(p) = 3 THEN {0, 2, 3, 4} ELSE 0..6] :
           /\ dst' = [perm |-> p, dims |-> d, cells |-> [c \in 1..(Size(d) * case[3]) |-> (7 * c) % 251]] /\ UNCHANGED src
           /\ case' = <<"view", p, case[3], case[4], d>>
Spec == MCInit /\ [][MCNext]_mcvars
Emit ==
  \/ Len(case') < 5
  \/ (Len(case') = 5 /\ case'[1] = "copy")
  \/ PrintT("@" \o ToJson(<<IF case'[1] = "view" THEN [op |-> "view", perm |-> case'[2], dims |-> dst'.dims, u |-> case'[3], t |-> case'[4]]
                            ELSE IF case'[1] = "inside" THEN [op |-> "inside", perm |-> case'[2], dims |-> dst'.dims, di |-> case'[4], si |-> case'[5]]
                            ELSE [op |-> "copy", perm |-> case'[2], dims |-> dst'.dims, di |-> case'[6], sperm |-> case'[4], sdims |-> src'.dims, si |-> case'[7]]>>))
Copying == Len(case) = 7
(* One of the two outcomes is always allowed, and only one where the documentation says which. *)
Decided == /\ Copying => ~(MustCopy(dst, case[6], src, case[7]) /\ MustRefuse(dst, case[6], src, case[7]))
           /\ (Len(case) = 5 /\ case[1] = "inside") => ~(MustCopy(dst, case[4], dst, case[5]) /\ MustRefuse(dst, case[4], dst, case[5]))
(* A run of bytes gives what an entry by entry copy gives, wherever a copy is allowed. *)
RunIsEntries ==
  (Copying /\ ~MustRefuse(dst, case[6], src, case[7]) /\ DimsOf(dst, case[6]) = DimsOf(src, case[7]) /\ Size(DimsOf(dst, case[6])) > 0) =>
    LET p == At(dst, case[6]) q == At(src, case[7]) n == Len(p)
        bytes == [c \in DOMAIN dst.cells |-> IF c > p[1] /\ c <= p[1] + n THEN src.cells[c - p[1] + q[1]] ELSE dst.cells[c]]
    IN Copied(dst, case[6], src, case[7]).cells = bytes
(* A view of another type has the same bytes, each in exactly one entry, and viewing it back undoes it. *)
ViewKeeps ==
  (Len(case) = 5 /\ case[1] = "view" /\ Convertible(case[2], case[5], case[3], case[4])) =>
    LET p == case[2] u == case[3] t == case[4] d == case[5] v == ViewDims(p, d, u, t) x == LexPositions(ViewStrides(p, d, u, t), v) IN
    /\ Size(v) * t = Size(d) * u
    /\ Cardinality(Range(x)) = Len(x) /\ (x = <<>> \/ Range(x) = 0..(Len(x) - 1))
    /\ Size(d) > 0 => ViewStrides(p, d, u, t) = Strides(p, v)
    /\ Convertible(p, v, t, u) /\ ViewDims(p, v, t, u) = d
=============================================================================
