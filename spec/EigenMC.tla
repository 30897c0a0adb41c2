------------------------------ MODULE EigenMC -------------------------------
(* All matrices with small entries. What the specification says about the characteristic polynomial is checked on     *)
(* them: its roots are real (the discriminant is not negative), it does not depend on the order or the signs of the   *)
(* axes, and integer roots have eigenvectors. Every matrix is decomposed by the real code. *)
EXTENDS Eigen, Json, FiniteSets
CONSTANTS Most2, Most3     \* the largest entries
VARIABLES n, m, path
Span(r) == -r .. r
Zero(k) == [i \in 1 .. Size(k) |-> 0]
Init == n \in {2, 3} /\ m = Zero(n) /\ path = <<>>
Most == IF n = 2 THEN Most2 ELSE Most3
(* the state space is the set of matrices; a step changes one entry *)
Next == \E i \in 1 .. Size(n), x \in Span(Most) :
          /\ \A j \in i + 1 .. Size(n) : m[j] = 0
          /\ m[i] = 0 /\ x # 0
          /\ m' = [m EXCEPT ![i] = x]
          /\ path' = <<[op |-> "decompose", n |-> n, m |-> m']>>
          /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, m, path>>
Emit == PrintT("@" \o ToJson(path'))
Real == Disc(n, m) >= 0
(* The matrix with its axes permuted by p, and with the sign of axis a flipped *)
Pack(k, D(_, _)) == IF k = 2 THEN <<D(1, 1), D(2, 2), D(1, 2)>> ELSE <<D(1, 1), D(2, 2), D(3, 3), D(2, 3), D(1, 3), D(1, 2)>>
Permuted(p) == Pack(n, LAMBDA i, j : At(n, m, p[i], p[j]))
Flipped(a) == Pack(n, LAMBDA i, j : IF (i = a) # (j = a) THEN -At(n, m, i, j) ELSE At(n, m, i, j))
SamePolynomial(o) == Trace(n, o) = Trace(n, m) /\ Disc(n, o) = Disc(n, m) /\ (n = 3 => Minors3(o) = Minors3(m) /\ Det3(o) = Det3(m))
Invariant ==
  /\ \A p \in {q \in [1 .. n -> 1 .. n] : Cardinality({q[i] : i \in 1 .. n}) = n} : SamePolynomial(Permuted(p))
  /\ \A a \in 1 .. n : SamePolynomial(Flipped(a))
Symmetric == \A i, j \in 1 .. n : At(n, m, i, j) = At(n, m, j, i)
(* multiples of the identity, and only those, have one eigenvalue; of 2x2 matrices only those repeat one *)
Scalar == \E c \in Span(Most) : m = [i \in 1 .. Size(n) |-> IF i <= n THEN c ELSE 0]
Simple == (Scalar => Repeated(n, m)) /\ (n = 2 => (Repeated(n, m) <=> Scalar))
(* diagonal matrices: the discriminant is the product of the squared differences, the obvious decomposition solves, and no other order does *)
Diagonal == \A i \in n + 1 .. Size(n) : m[i] = 0
Obvious ==
  Diagonal =>
    /\ LET d(i, j) == (m[i] - m[j]) * (m[i] - m[j]) IN Disc(n, m) = IF n = 2 THEN d(1, 2) ELSE d(1, 2) * d(1, 3) * d(2, 3)
    /\ \A p \in {q \in [1 .. n -> 1 .. n] : Cardinality({q[i] : i \in 1 .. n}) = n} :
         LET lam == [i \in 1 .. n |-> m[p[i]] * One]
             vec == [i \in 1 .. n |-> [j \in 1 .. n |-> IF j = p[i] THEN One ELSE 0]]
         IN Solves(n, m, lam, vec, 3) <=> \A i \in 1 .. n - 1 : lam[i] <= lam[i + 1]
=============================================================================
