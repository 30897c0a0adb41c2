------------------------------- MODULE Eigen --------------------------------
(* Eigenvalues and eigenvectors of symmetric 2x2 and 3x3 matrices with integer entries (tensorOps::symEigenvalues,    *)
(* symEigenvectors). A matrix is the sequence of its entries in LvArray's order: the diagonal, then (0,1) of a 2x2    *)
(* matrix and (1,2), (0,2), (0,1) of a 3x3 one. What the functions return is real and therefore compared in           *)
(* hundredths of a percent, and by how far it is from the defining equations in units of the machine precision.       *)
EXTENDS Integers, Sequences, TLC

Size(n) == (n * (n + 1)) \div 2
(* entry (i, j) of the dense matrix *)
At(n, m, i, j) ==
  CASE i = j -> m[i]
    [] n = 2 -> m[3]
    [] n = 3 -> m[9 - i - j]         \* (2,3) is m[4], (1,3) is m[5], (1,2) is m[6]
Sum(n, F(_)) == LET RECURSIVE G(_) G(k) == IF k = 0 THEN 0 ELSE F(k) + G(k - 1) IN G(n)
Abs(x) == IF x < 0 THEN -x ELSE x

(* ---- the characteristic polynomial x^n - Trace x^(n-1) + Minors x^(n-2) - Det *)
Trace3(m) == m[1] + m[2] + m[3]
Minors3(m) == m[1] * m[2] + m[2] * m[3] + m[1] * m[3] - m[4] * m[4] - m[5] * m[5] - m[6] * m[6]
Det3(m) == m[1] * (m[2] * m[3] - m[4] * m[4]) - m[6] * (m[6] * m[3] - m[4] * m[5]) + m[5] * (m[6] * m[4] - m[2] * m[5])
Trace(n, m) == IF n = 2 THEN m[1] + m[2] ELSE Trace3(m)
(* the discriminant vanishes exactly when an eigenvalue is repeated *)
Disc(n, m) ==
  IF n = 2 THEN (m[1] - m[2]) * (m[1] - m[2]) + 4 * m[3] * m[3]
  ELSE LET t == Trace3(m)
           s == Minors3(m)
           d == Det3(m)
       IN t * t * s * s - 4 * s * s * s - 4 * t * t * t * d + 18 * t * s * d - 27 * d * d
Repeated(n, m) == Disc(n, m) = 0

(* ---- how far the result may be from the defining equations, in units of the machine precision *)
(* The eigenvalues of a 3x3 matrix are found through an arc cosine, which has no accuracy beyond the square root of   *)
(* the machine precision where two of them meet; those of a 2x2 matrix are found through a square root.               *)
Root(to) == IF to = "float" THEN 2896 ELSE 67108864
Residual(n, m, to) == IF n = 2 THEN 16 ELSE IF Repeated(n, m) THEN 4 * Root(to) ELSE 256
Skew(n, m, to) == IF n = 2 THEN 16 ELSE IF Repeated(n, m) THEN 2 * Root(to) ELSE 64
Close(n, m, r) ==
  /\ r.res <= Residual(n, m, r.to)      \* A v = lambda v
  /\ r.ort <= Skew(n, m, r.to)          \* the eigenvectors are orthogonal and have length one
  /\ r.asc <= 16                        \* in ascending order
  /\ r.dif <= 16                        \* both functions find the same eigenvalues

(* ---- the same from the numbers, with four decimals *)
One == 10000
(* of float, repeated eigenvalues are off by almost a thousandth *)
Slack(n, m, to, k) == IF k # 0 \/ to = "float" THEN 40 ELSE 3
Sane(r) == (\A i \in 1 .. r.n : Abs(r.lam[i]) <= 20 * One) /\ (\A i, j \in 1 .. r.n : Abs(r.vec[i][j]) <= One + 40)
Solves(n, m, lam, vec, slack) ==
  /\ \A i \in 1 .. n - 1 : lam[i] <= lam[i + 1] + slack
  /\ LET s == Sum(n, LAMBDA i : lam[i]) IN Abs(s - Trace(n, m) * One) <= 3 * slack
  /\ \A e, f \in 1 .. n : Abs(Sum(n, LAMBDA i : vec[e][i] * vec[f][i]) - (IF e = f THEN One * One ELSE 0)) <= 3 * slack * One
  /\ \A e, i \in 1 .. n : Abs(Sum(n, LAMBDA j : At(n, m, i, j) * vec[e][j]) * One - lam[e] * vec[e][i]) <= 40 * slack * One
=============================================================================
