------------------------------ MODULE TensorOps ------------------------------
(* The algebra of tensorOps on vectors and matrices of fixed size. Matrices are sequences of their entries by rows;  *)
(* symmetric matrices are sequences of their entries in Voigt order (00, 11, 01) and (00, 11, 22, 12, 02, 01). An    *)
(* operation is an entry [f, m, n, k] with operands a and b, a scalar s and a destination; it gives a new destination *)
(* and may return a value. Nothing else changes.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE s[1] + Total(Tail(s))
Sum(n, F(_)) == Total([x \in 1..n |-> F(x)])
Abs(x) == IF x < 0 THEN -x ELSE x
Vector(n, F(_)) == [i \in 1..n |-> F(i)]
Matrix(m, n, F(_, _)) == [x \in 1..(m * n) |-> F(1 + ((x - 1) \div n), 1 + ((x - 1) % n))]
E(v, n, i, j) == v[(i - 1) * n + j]            \* entry of a matrix with n columns
Voigt(m, i, j) == IF m = 2 THEN (IF i = j THEN i ELSE 3) ELSE (IF i = j THEN i ELSE 9 - i - j)
SymSize(m) == (m * (m + 1)) \div 2
Pair(m, x) == IF x <= m THEN <<x, x>> ELSE IF m = 2 THEN <<1, 2>> ELSE CASE x = 4 -> <<2, 3>> [] x = 5 -> <<1, 3>> [] x = 6 -> <<1, 2>>
Dense(s, m) == Matrix(m, m, LAMBDA i, j : s[Voigt(m, i, j)])
Symmetric(d, m) == [x \in 1..SymSize(m) |-> E(d, m, Pair(m, x)[1], Pair(m, x)[2])]
Dot(a, b) == Sum(Len(a), LAMBDA x : a[x] * b[x])
Plus(a, b) == [x \in 1..Len(a) |-> a[x] + b[x]]
Times(s, a) == [x \in 1..Len(a) |-> s * a[x]]
(* of an i x k and a k x j matrix *)
Product(a, b, i, j, k) == Matrix(i, j, LAMBDA p, q : Sum(k, LAMBDA r : E(a, k, p, r) * E(b, j, r, q)))
Transposed(a, m, n) == Matrix(n, m, LAMBDA p, q : E(a, n, q, p))     \* of an m x n matrix
Identity(m) == Matrix(m, m, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
TraceOf(a, m) == Sum(m, LAMBDA i : E(a, m, i, i))
Det(a, m) == IF m = 2 THEN a[1] * a[4] - a[2] * a[3]
             ELSE a[1] * (a[5] * a[9] - a[6] * a[8]) - a[2] * (a[4] * a[9] - a[6] * a[7]) + a[3] * (a[4] * a[8] - a[5] * a[7])
Minor(a, m, i, j) == IF m = 2 THEN E(a, 2, 3 - i, 3 - j)
                     ELSE LET r == [x \in 1..2 |-> IF x < i THEN x ELSE x + 1]
                              c == [x \in 1..2 |-> IF x < j THEN x ELSE x + 1]
                          IN E(a, 3, r[1], c[1]) * E(a, 3, r[2], c[2]) - E(a, 3, r[1], c[2]) * E(a, 3, r[2], c[1])
Adjugate(a, m) == Matrix(m, m, LAMBDA i, j : (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Minor(a, m, j, i))
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>

(* -- shapes: of the destination, of a, and of b; <<>> where there is none ---------------------------------------- *)
Sized(m, n, k) == [
  vec |-> <<m>>, mat |-> <<m, n>>, sq |-> <<m, m>>, sym |-> <<SymSize(m)>>, mk |-> <<m, k>>, km |-> <<k, m>>, kn |-> <<k, n>>, nk |-> <<n, k>>, nm |-> <<n, m>>, vecn |-> <<n>>, none |-> <<>>]
Signature(f) ==
  CASE f \in {"maxAbsoluteEntry", "l2NormSquared", "l2Norm"} -> <<"none", "vec", "none">>
    [] f \in {"fill", "scale", "addScalar", "normalize"} -> <<"vec", "none", "none">>
    [] f \in {"copy", "add", "subtract", "scaledCopy", "scaledAdd"} -> <<"vec", "vec", "none">>
    [] f \in {"fillMatrix", "scaleMatrix"} -> <<"mat", "none", "none">>
    [] f \in {"copyMatrix", "addMatrix", "scaledCopyMatrix", "scaledAddMatrix"} -> <<"mat", "mat", "none">>
    [] f \in {"hadamardProduct", "crossProduct"} -> <<"vec", "vec", "vec">>
    [] f = "AiBi" -> <<"none", "vec", "vec">>
    [] f \in {"Rij_eq_AiBj", "Rij_add_AiBj"} -> <<"mat", "vec", "vecn">>
    [] f \in {"Ri_eq_AijBj", "Ri_add_AijBj"} -> <<"vec", "mat", "vecn">>
    [] f \in {"Ri_eq_AjiBj", "Ri_add_AjiBj"} -> <<"vec", "nm", "vecn">>
    [] f = "transposeInto" -> <<"mat", "nm", "none">>
    [] f \in {"Rij_eq_AikBkj", "Rij_add_AikBkj"} -> <<"mat", "mk", "kn">>
    [] f \in {"Rij_eq_AikBjk", "Rij_add_AikBjk"} -> <<"mat", "mk", "nk">>
    [] f \in {"Rij_eq_AkiBkj", "Rij_add_AkiBkj"} -> <<"mat", "km", "kn">>
    [] f = "Rij_add_AikAjk" -> <<"sq", "mat", "none">>
    [] f = "Rij_eq_AkiAkj" -> <<"sq", "nm", "none">>
    [] f \in {"transpose", "addIdentity", "invertInPlace"} -> <<"sq", "none", "none">>
    [] f \in {"trace", "determinant"} -> <<"none", "sq", "none">>
    [] f \in {"symAddIdentity", "symInvertInPlace"} -> <<"sym", "none", "none">>
    [] f \in {"symTrace", "symDeterminant"} -> <<"none", "sym", "none">>
    [] f = "invert" -> <<"sq", "sq", "none">>
    [] f = "symInvert" -> <<"sym", "sym", "none">>
    [] f \in {"Ri_eq_symAijBj", "Ri_add_symAijBj"} -> <<"vec", "sym", "vec">>
    [] f = "Rij_eq_symAikBjk" -> <<"sq", "sym", "sq">>
    [] f = "Rij_eq_AikSymBklAjl" -> <<"sym", "sq", "sym">>
    [] f = "symRij_eq_AiAj" -> <<"sym", "vec", "none">>
    [] f = "symRij_eq_AiBj_plus_AjBi" -> <<"sym", "vec", "vec">>
    [] f = "denseToSymmetric" -> <<"sym", "sq", "none">>
    [] f = "symmetricToDense" -> <<"sq", "sym", "none">>
    [] f = "symEigenvalues" -> <<"vec", "sym", "none">>
    [] f = "symEigenvectors" -> <<"vec", "sym", "sq">>            \* b is written: the eigenvectors, by rows
Shape(f, m, n, k) == LET s == Sized(m, n, k) g == Signature(f) IN [dst |-> s[g[1]], a |-> s[g[2]], b |-> s[g[3]]]
RECURSIVE Cells(_)
Cells(shape) == IF shape = <<>> THEN 1 ELSE shape[1] * Cells(Tail(shape))
Count(shape) == IF shape = <<>> THEN 0 ELSE Cells(shape)

(* -- what an operation gives --------------------------------------------------------------------------------------- *)
Rounded == {"l2Norm", "normalize", "invert", "invertInPlace", "symInvert", "symInvertInPlace", "symEigenvalues", "symEigenvectors"}
Returning == {"maxAbsoluteEntry", "l2NormSquared", "AiBi", "trace", "symTrace", "determinant", "symDeterminant"}
Functions == {"maxAbsoluteEntry", "l2NormSquared", "l2Norm", "fill", "scale", "addScalar", "normalize", "copy", "add", "subtract", "scaledCopy", "scaledAdd", "fillMatrix", "scaleMatrix",
  "copyMatrix", "addMatrix", "scaledCopyMatrix", "scaledAddMatrix", "hadamardProduct", "crossProduct", "AiBi", "Rij_eq_AiBj", "Rij_add_AiBj", "Ri_eq_AijBj", "Ri_add_AijBj", "Ri_eq_AjiBj",
  "Ri_add_AjiBj", "transposeInto", "Rij_eq_AikBkj", "Rij_add_AikBkj", "Rij_eq_AikBjk", "Rij_add_AikBjk", "Rij_eq_AkiBkj", "Rij_add_AkiBkj", "Rij_add_AikAjk", "Rij_eq_AkiAkj", "transpose",
  "addIdentity", "invertInPlace", "trace", "determinant", "symAddIdentity", "symInvertInPlace", "symTrace", "symDeterminant", "invert", "symInvert", "Ri_eq_symAijBj", "Ri_add_symAijBj",
  "Rij_eq_symAikBjk", "Rij_eq_AikSymBklAjl", "symRij_eq_AiAj", "symRij_eq_AiBj_plus_AjBi", "denseToSymmetric", "symmetricToDense", "symEigenvalues", "symEigenvectors"}
Returned(f, m, a, b) ==
  CASE f = "maxAbsoluteEntry" -> CHOOSE x \in {Abs(a[i]) : i \in 1..m} : \A i \in 1..m : Abs(a[i]) <= x
    [] f = "l2NormSquared" -> Dot(a, a)
    [] f = "AiBi" -> Dot(a, b)
    [] f = "trace" -> TraceOf(a, m)
    [] f = "symTrace" -> TraceOf(Dense(a, m), m)
    [] f = "determinant" -> Det(a, m)
    [] f = "symDeterminant" -> Det(Dense(a, m), m)
Result(f, m, n, k, a, b, s, d) ==
  CASE f \in {"fill", "fillMatrix"} -> [x \in 1..Len(d) |-> s]
    [] f \in {"scale", "scaleMatrix"} -> Times(s, d)
    [] f = "addScalar" -> [x \in 1..m |-> d[x] + s]
    [] f \in {"copy", "copyMatrix"} -> a
    [] f \in {"add", "addMatrix"} -> Plus(d, a)
    [] f = "subtract" -> Plus(d, Times(-1, a))
    [] f \in {"scaledCopy", "scaledCopyMatrix"} -> Times(s, a)
    [] f \in {"scaledAdd", "scaledAddMatrix"} -> Plus(d, Times(s, a))
    [] f = "hadamardProduct" -> [x \in 1..m |-> a[x] * b[x]]
    [] f = "crossProduct" -> Cross(a, b)
    [] f = "Rij_eq_AiBj" -> Product(a, b, m, n, 1)
    [] f = "Rij_add_AiBj" -> Plus(d, Product(a, b, m, n, 1))
    [] f = "Ri_eq_AijBj" -> Product(a, b, m, 1, n)
    [] f = "Ri_add_AijBj" -> Plus(d, Product(a, b, m, 1, n))
    [] f = "Ri_eq_AjiBj" -> Product(Transposed(a, n, m), b, m, 1, n)
    [] f = "Ri_add_AjiBj" -> Plus(d, Product(Transposed(a, n, m), b, m, 1, n))
    [] f = "transposeInto" -> Transposed(a, n, m)
    [] f = "Rij_eq_AikBkj" -> Product(a, b, m, n, k)
    [] f = "Rij_add_AikBkj" -> Plus(d, Product(a, b, m, n, k))
    [] f = "Rij_eq_AikBjk" -> Product(a, Transposed(b, n, k), m, n, k)
    [] f = "Rij_add_AikBjk" -> Plus(d, Product(a, Transposed(b, n, k), m, n, k))
    [] f = "Rij_eq_AkiBkj" -> Product(Transposed(a, k, m), b, m, n, k)
    [] f = "Rij_add_AkiBkj" -> Plus(d, Product(Transposed(a, k, m), b, m, n, k))
    [] f = "Rij_add_AikAjk" -> Plus(d, Product(a, Transposed(a, m, n), m, m, n))
    [] f = "Rij_eq_AkiAkj" -> Product(Transposed(a, n, m), a, m, m, n)
    [] f = "transpose" -> Transposed(d, m, m)
    [] f = "addIdentity" -> Plus(d, Times(s, Identity(m)))
    [] f = "symAddIdentity" -> Plus(d, Times(s, [x \in 1..SymSize(m) |-> IF x <= m THEN 1 ELSE 0]))
    [] f = "Ri_eq_symAijBj" -> Product(Dense(a, m), b, m, 1, m)
    [] f = "Ri_add_symAijBj" -> Plus(d, Product(Dense(a, m), b, m, 1, m))
    [] f = "Rij_eq_symAikBjk" -> Product(Dense(a, m), Transposed(b, m, m), m, m, m)
    [] f = "Rij_eq_AikSymBklAjl" -> Symmetric(Product(Product(a, Dense(b, m), m, m, m), Transposed(a, m, m), m, m, m), m)
    [] f = "symRij_eq_AiAj" -> Symmetric(Product(a, a, m, m, 1), m)
    [] f = "symRij_eq_AiBj_plus_AjBi" -> Symmetric(Plus(Product(a, b, m, m, 1), Product(b, a, m, m, 1)), m)
    [] f = "denseToSymmetric" -> Symmetric(a, m)
    [] f = "symmetricToDense" -> Dense(a, m)
    [] OTHER -> d
(* -- results that are rounded: given as thousandths ------------------------------------------------------------------ *)
Near(x, y, t) == Abs(x - y) <= t
(* x (in thousandths) is the non-negative root of n, to a thousandth *)
RootOf(x, n) == x >= 0 /\ (x = 0 \/ (x - 1) * (x - 1) <= 1000000 * n) /\ (x + 1) * (x + 1) >= 1000000 * n
InverseOf(d, a, m) == LET t == Det(a, m) IN \A x \in 1..(m * m) : Near(d[x] * t, 1000 * Adjugate(a, m)[x], Abs(t))
(* eigenvalues in order, with the trace and the sum of squares (and the determinant) they must have *)
Largest(A, m) == LET rows == {Sum(m, LAMBDA j : Abs(E(A, m, i, j))) : i \in 1..m} IN CHOOSE x \in rows : \A y \in rows : y <= x
EigenvaluesOf(v, a, m) ==
  LET A == Dense(a, m)
      most == 1 + Largest(A, m)                       \* no eigenvalue is larger
  IN /\ \A i \in 1..(m - 1) : v[i] <= v[i + 1]
     /\ Near(Total(v), 1000 * TraceOf(A, m), m + 1)
     /\ Near(Sum(m, LAMBDA i : (v[i] * v[i]) \div 1000), 1000 * Dot(A, A), 4 * most + m)
     /\ Near(IF m = 2 THEN (v[1] * v[2]) \div 1000 ELSE (((v[1] * v[2]) \div 1000) * v[3]) \div 1000, 1000 * Det(A, m), 3 * most * most + 4)
EigenvectorsOf(v, w, a, m) ==
  LET A == Dense(a, m)
      row(i) == SubSeq(w, (i - 1) * m + 1, i * m)
      most == 1 + Largest(A, m)
  IN /\ EigenvaluesOf(v, a, m)
     /\ \A i, j \in 1..m : Near(Dot(row(i), row(j)), IF i = j THEN 1000000 ELSE 0, 4000)
     /\ \A i \in 1..m : LET u == Product(A, row(i), m, 1, m) IN \A x \in 1..m : Near(u[x], (v[i] * row(i)[x]) \div 1000, 4 * most + 4)
Singular(f, m, a, d) == CASE f = "invert" -> Det(a, m) = 0 [] f = "invertInPlace" -> Det(d, m) = 0
                          [] f = "symInvert" -> Det(Dense(a, m), m) = 0 [] f = "symInvertInPlace" -> Det(Dense(d, m), m) = 0
                          [] f = "normalize" -> Dot(d, d) = 0 [] OTHER -> FALSE
(* was and now: the destination before and after; r: what was returned; after: the second destination of eigenvectors   *)
RoundedResult(f, m, a, was, now, after, r) ==
  CASE f = "l2Norm" -> RootOf(r, Dot(a, a)) /\ now = was
    [] f = "normalize" -> RootOf(r, Dot(was, was)) /\ \A i \in 1..m : Near((now[i] * r) \div 1000, 1000 * was[i], 1 + Abs(was[i]) + (r \div 1000))
    [] f = "invert" -> InverseOf(now, a, m) /\ r = 1000 * Det(a, m)
    [] f = "invertInPlace" -> InverseOf(now, was, m) /\ r = 1000 * Det(was, m)
    [] f = "symInvert" -> InverseOf(Dense(now, m), Dense(a, m), m) /\ r = 1000 * Det(Dense(a, m), m)
    [] f = "symInvertInPlace" -> InverseOf(Dense(now, m), Dense(was, m), m) /\ r = 1000 * Det(Dense(was, m), m)
    [] f = "symEigenvalues" -> EigenvaluesOf(now, a, m)
    [] f = "symEigenvectors" -> EigenvectorsOf(now, after, a, m)
(* -- transitions: the destination, the only thing an operation changes ------------------------------------------------ *)
VARIABLE dst
Apply(f, m, n, k, a, b, s, now, after, r) ==
  /\ dst' = now
  /\ IF f \in Rounded THEN RoundedResult(f, m, a, dst, now, after, r)
     ELSE /\ now = Result(f, m, n, k, a, b, s, dst)
          /\ f \in Returning => r = Returned(f, m, a, b)
(* With bounds checks a call with an operand of another size is reported, and changes nothing. *)
Refuse(reported, now) == reported /\ now = dst /\ dst' = dst
=============================================================================
