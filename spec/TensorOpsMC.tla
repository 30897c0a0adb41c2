----------------------------- MODULE TensorOpsMC -----------------------------
(* Every operation at a range of sizes. The operations are polynomials in the entries of their operands: linear in    *)
(* each of them, quadratic, or (determinants) of degree m with every entry at most once per term; they are exercised   *)
(* on all unit operands, all sums of two units, or all 0/1 (-1/0/1) matrices, which decides such a polynomial.         *)
EXTENDS TensorOps, TLC, Json
CONSTANT Deep
VARIABLES case
mcvars == <<dst, case>>
Triples(f) ==
  LET g == Signature(f) shapes == {g[1], g[2], g[3]} IN
  IF f \in {"determinant", "invert", "invertInPlace", "symDeterminant", "symInvert", "symInvertInPlace", "Ri_eq_symAijBj", "Ri_add_symAijBj", "Rij_eq_symAikBjk", "Rij_eq_AikSymBklAjl",
            "symRij_eq_AiAj", "symRij_eq_AiBj_plus_AjBi", "denseToSymmetric", "symmetricToDense", "symEigenvalues", "symEigenvectors"} THEN {<<2, 1, 1>>, <<3, 1, 1>>}
  ELSE IF f = "crossProduct" THEN {<<3, 1, 1>>}
  ELSE IF f \in {"symAddIdentity", "symTrace"} THEN {<<2, 1, 1>>, <<3, 1, 1>>}
  ELSE IF shapes \cap {"mk", "km"} # {} THEN {<<2, 3, 4>>, <<3, 2, 2>>, <<3, 3, 3>>, <<1, 2, 3>>, <<4, 1, 2>>}
  ELSE IF shapes \cap {"mat", "nm"} # {} THEN {<<2, 3, 1>>, <<3, 2, 1>>, <<3, 3, 1>>, <<1, 4, 1>>, <<2, 2, 1>>}
  ELSE IF shapes \cap {"sq"} # {} THEN {<<2, 1, 1>>, <<3, 1, 1>>, <<4, 1, 1>>}
  ELSE {<<m, 1, 1>> : m \in {1, 2, 3, 4, 6}}
Unit(n, i) == [x \in 1..n |-> IF x = i THEN 1 ELSE 0]
Ramp(n) == [x \in 1..n |-> IF x % 2 = 0 THEN -x ELSE x + 1]
Primes == <<2, -3, 5, 7, -11, 13, -17, 19, 23, -29, 31, 37, -41, 43, 47, 53>>
Few(n) == SubSeq(Primes, 1, n)
Units(n) == IF n = 0 THEN {<<>>} ELSE {Unit(n, i) : i \in 1..n} \cup {Ramp(n), Few(n)}
Twos(n) == Units(n) \cup {Plus(Unit(n, i), Unit(n, j)) : i, j \in 1..n}
(* small square or symmetric matrices *)
Small(f, n) == IF n <= 4 THEN [1..n -> -2..2]
               ELSE IF n = 6 THEN [1..n -> -1..1] ELSE IF Deep THEN [1..n -> -1..1] ELSE [1..n -> 0..1] \cup {[x \in 1..9 |-> ((x * p) % 5) - 2] : p \in 1..16} \cup {[x \in 1..9 |-> ((x * x * p + q) % 7) - 3] : p \in 1..6, q \in 0..6}
Polynomial == {"determinant", "invert", "symDeterminant", "symInvert", "symEigenvalues", "symEigenvectors"}
OperandsA(f, n) == IF n = 0 THEN {<<>>} ELSE IF f \in Polynomial THEN Small(f, n)
                   ELSE IF f \in {"l2NormSquared", "Rij_add_AikAjk", "Rij_eq_AkiAkj", "Rij_eq_AikSymBklAjl", "symRij_eq_AiAj", "symRij_eq_AiBj_plus_AjBi"} THEN Twos(n)
                   ELSE IF f \in {"maxAbsoluteEntry", "l2Norm"} THEN (IF n <= 3 THEN [1..n -> -3..3] ELSE Twos(n))
                   ELSE Units(n)
OperandsB(f, n) == IF n = 0 \/ f = "symEigenvectors" THEN {[x \in 1..n |-> 7]} ELSE Units(n)
Destinations(f, n) == IF f \in {"invertInPlace", "symInvertInPlace"} THEN Small(f, n) ELSE IF f = "normalize" THEN (IF n <= 3 THEN [1..n -> -3..3] ELSE Twos(n)) ELSE IF n = 0 THEN {<<>>} ELSE IF f = "transpose" THEN Units(n) ELSE {Ramp(n), Few(n)}
MCInit == dst = <<>> /\ case = <<>>
MCNext ==
  \/ /\ case = <<>>
     /\ \E f \in Functions : \E t \in Triples(f) : case' = <<f, t>>
     /\ UNCHANGED dst
  \/ /\ Len(case) = 2
     /\ LET f == case[1] t == case[2] h == Shape(f, t[1], t[2], t[3]) IN
        \E a \in OperandsA(f, Count(h.a)), b \in OperandsB(f, Count(h.b)), d \in Destinations(f, Count(h.dst)) :
           /\ ~Singular(f, t[1], a, d)
           /\ \E s \in IF f \in {"fill", "fillMatrix", "scale", "scaleMatrix", "addScalar", "scaledCopy", "scaledCopyMatrix", "scaledAdd", "scaledAddMatrix", "addIdentity", "symAddIdentity"} THEN {-3, 0, 1, 5} ELSE {0} :
                case' = <<f, t, a, b, s>> /\ dst' = d
Spec == MCInit /\ [][MCNext]_mcvars
Emit == Len(case') = 2 \/ PrintT("@" \o ToJson(<<[op |-> "call", f |-> case'[1], m |-> case'[2][1], n |-> case'[2][2], k |-> case'[2][3], a |-> case'[3], b |-> case'[4], s |-> case'[5], d |-> dst']>>))
(* Laws the definitions obey. *)
Laws ==
  Len(case) = 5 =>
    LET f == case[1] m == case[2][1] n == case[2][2] k == case[2][3] a == case[3] b == case[4] IN
    /\ f = "Rij_eq_AikBkj" => Transposed(Product(a, b, m, n, k), m, n) = Product(Transposed(b, k, n), Transposed(a, m, k), n, m, k)
    /\ (f = "Rij_eq_AikBkj" /\ m = n /\ n = k /\ m \in {2, 3}) => /\ Det(Product(a, b, m, m, m), m) = Det(a, m) * Det(b, m)
                                                                  /\ TraceOf(Product(a, b, m, m, m), m) = TraceOf(Product(b, a, m, m, m), m)
    /\ f = "determinant" => /\ Product(a, Adjugate(a, m), m, m, m) = Times(Det(a, m), Identity(m))
                            /\ Det(Transposed(a, m, m), m) = Det(a, m)
    /\ f \in {"symmetricToDense", "symDeterminant"} => Symmetric(Dense(a, m), m) = a /\ Transposed(Dense(a, m), m, m) = Dense(a, m)
    /\ f = "crossProduct" => Dot(Cross(a, b), a) = 0 /\ Dot(Cross(a, b), b) = 0 /\ Cross(b, a) = Times(-1, Cross(a, b))
                             /\ Dot(Cross(a, b), Cross(a, b)) = Dot(a, a) * Dot(b, b) - Dot(a, b) * Dot(a, b)
    /\ f = "Rij_eq_AikSymBklAjl" => LET p == Product(Product(a, Dense(b, m), m, m, m), Transposed(a, m, m), m, m, m) IN Transposed(p, m, m) = p
    /\ f = "symInvert" => LET j == Adjugate(Dense(a, m), m) IN Transposed(j, m, m) = j
    /\ f \in Functions \ Rounded => Len(Result(f, m, n, k, a, b, case[5], dst)) = Len(dst)
=============================================================================
