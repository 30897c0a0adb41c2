-------------------------------- MODULE Vast --------------------------------
(* Layouts of arrays whose extents, strides and positions exceed 32 bits. A number is the sequence of its digits in    *)
(* base 10000, least significant first, without leading zeros; zero is the empty sequence. The definitions below are   *)
(* those of Layout over such numbers; VastMC shows the two agree where both apply.                                      *)
EXTENDS Integers, Sequences, SequencesExt
B == 10000
MaxOf(a, b) == IF a > b THEN a ELSE b
RECURSIVE Num(_), Value(_), Trim(_)
Num(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o Num(n \div B)
Value(x) == IF x = <<>> THEN 0 ELSE x[1] + B * Value(Tail(x))
Trim(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN Trim(Front(x)) ELSE x
Digit(x, k) == IF k <= Len(x) THEN x[k] ELSE 0
(* The digits of sums[1] + sums[2] * B + ..., each below 2^30. *)
Carried(sums) ==
  LET n == Len(sums) + 3
      C[k \in 0..n] == IF k = 0 THEN [digit |-> 0, carry |-> 0]
                       ELSE LET t == C[k - 1].carry + (IF k <= Len(sums) THEN sums[k] ELSE 0) IN [digit |-> t % B, carry |-> t \div B]
  IN Trim([k \in 1..n |-> C[k].digit])
Plus(x, y) == Carried([k \in 1..MaxOf(Len(x), Len(y)) |-> Digit(x, k) + Digit(y, k)])
Times(x, y) ==
  IF x = <<>> \/ y = <<>> THEN <<>>
  ELSE LET P(k) == LET D[i \in 0..Len(x)] == IF i = 0 THEN 0 ELSE D[i - 1] + (IF k - i >= 0 THEN x[i] * Digit(y, k - i + 1) ELSE 0) IN D[Len(x)]
       IN Carried([k \in 1..(Len(x) + Len(y)) |-> P(k)])
Less(x, y) == \/ Len(x) < Len(y)
              \/ Len(x) = Len(y) /\ \E k \in 1..Len(x) : x[k] < y[k] /\ \A j \in (k + 1)..Len(x) : x[j] = y[j]
-----------------------------------------------------------------------------
VSize(dims) == FoldSeq(LAMBDA a, b : Times(a, b), Num(1), dims)
Where(perm, d) == CHOOSE i \in 1..Len(perm) : perm[i] = d
VStrides(perm, dims) ==
  LET n == Len(perm)
      S[i \in 1..n] == IF i = n THEN Num(1) ELSE Times(S[i + 1], dims[perm[i + 1] + 1])
  IN [d \in 1..n |-> S[Where(perm, d - 1)]]
VDot(x, y) == LET D[i \in 0..Len(x)] == IF i = 0 THEN <<>> ELSE Plus(D[i - 1], Times(x[i], y[i])) IN D[Len(x)]
VPos(perm, dims, idx) == VDot(VStrides(perm, dims), idx)
VInside(dims, idx) == \A k \in 1..Len(dims) : Less(idx[k], dims[k])
VDrop(x, n) == SubSeq(x, n + 1, Len(x))
VSliceStart(perm, dims, prefix) == VDot(SubSeq(VStrides(perm, dims), 1, Len(prefix)), prefix)
=============================================================================
