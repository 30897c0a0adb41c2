------------------------------ MODULE Numeric -------------------------------
(* The numeric helpers (src/math.hpp) and limits (src/limits.hpp) as functions. Integers are <<sign>> \o limbs (see   *)
(* Words) or plain; floating-point values that matter exactly are dyadic: [m |-> mantissa, e |-> exponent], m odd or  *)
(* both zero; trigonometric values are in units of 10^-4.                                                            *)
EXTENDS Words, TLC, FiniteSets

SLess(a, b) == CASE Negative(a) /\ ~Negative(b) -> TRUE
                 [] ~Negative(a) /\ Negative(b) -> FALSE
                 [] Negative(a) /\ Negative(b) -> Less(Mag(b), Mag(a))
                 [] OTHER -> Less(Mag(a), Mag(b))
MaxI(a, b) == IF SLess(a, b) THEN b ELSE a
MinI(a, b) == IF SLess(b, a) THEN b ELSE a
AbsI(a) == <<0>> \o Mag(a)

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN [m |-> 0, e |-> 0] ELSE IF m % 2 = 0 THEN Norm(m \div 2, e + 1) ELSE [m |-> m, e |-> e]
DLess(a, b) == LET e == IF a.e < b.e THEN a.e ELSE b.e IN a.m * P2(a.e - e) < b.m * P2(b.e - e)
MaxD(a, b) == IF DLess(a, b) THEN b ELSE a
MinD(a, b) == IF DLess(b, a) THEN b ELSE a
AbsD(a) == [a EXCEPT !.m = Abs(@)]
SquareD(a) == Norm(a.m * a.m, 2 * a.e)
NegD(a) == [a EXCEPT !.m = -@]
RECURSIVE Root(_, _)
Root(n, r) == IF r * r >= n THEN r ELSE Root(n, r + 1)

(* Results are single precision only for single-precision arguments. *)
ResultBytes(t) == IF t = "float" THEN 4 ELSE 8

------------------------------------------------------------------------------
(* Limits. A floating-point type has p digits and exponents emin..emax (values below 2^emax, normal above           *)
(* 2^(emin-1)). A value is [neg, m: 64 bit word with its top bit set, e]: m * 2^e.                                    *)
FloatParams(t) == CASE t = "half" -> [p |-> 11, emin |-> -13, emax |-> 16]
                    [] t = "float" -> [p |-> 24, emin |-> -125, emax |-> 128]
                    [] t = "double" -> [p |-> 53, emin |-> -1021, emax |-> 1024]
                    [] t = "long double" -> [p |-> 64, emin |-> -16381, emax |-> 16384]
TopOnes(p) == [i \in 1..4 |-> LET k == p - 16 * (i - 1) IN IF k >= 16 THEN Base - 1 ELSE IF k <= 0 THEN 0 ELSE Base - P2(16 - k)]
FloatLimit(t, which) ==
  LET f == FloatParams(t) IN
  CASE which = "max" -> [neg |-> FALSE, m |-> TopOnes(f.p), e |-> f.emax - 64]
    [] which = "lowest" -> [neg |-> TRUE, m |-> TopOnes(f.p), e |-> f.emax - 64]
    [] which = "min" -> [neg |-> FALSE, m |-> Pow2(63), e |-> f.emin - 64]
    [] which = "epsilon" -> [neg |-> FALSE, m |-> Pow2(63), e |-> 2 - f.p - 64]
    [] which = "denorm_min" -> [neg |-> FALSE, m |-> Pow2(63), e |-> f.emin - f.p + 1 - 64]
    [] which = "round_error" -> [neg |-> FALSE, m |-> Pow2(63), e |-> -64]
IntLimit(bits, signed, which) ==
  CASE which = "max" -> <<0>> \o Ones(IF signed THEN bits - 1 ELSE bits)
    [] which \in {"min", "lowest"} -> IF signed THEN <<1>> \o Pow2(bits - 1) ELSE <<0>> \o Zero
    [] which \in {"epsilon", "denorm_min", "round_error", "infinity", "quiet_NaN", "signaling_NaN"} -> <<0>> \o Zero

------------------------------------------------------------------------------
(* Trigonometry and exponentials to four decimals. *)
Near(x, y, tol) == Abs(x - y) <= tol
One == 10000
(* 10^4 sin(k pi/12), k = 0..23 *)
SinTable == <<0, 2588, 5000, 7071, 8660, 9659, 10000, 9659, 8660, 7071, 5000, 2588,
              0, -2588, -5000, -7071, -8660, -9659, -10000, -9659, -8660, -7071, -5000, -2588>>
SinAt(k) == SinTable[(k % 24) + 1]
CosAt(k) == SinAt(k + 6)
(* s, c, t: sine, cosine, tangent of one angle *)
Pythagoras(s, c, tol) == Near((s * s) \div One + (c * c) \div One, One, 3 * tol + 3)
TangentOf(s, c, t, tol) == Abs(t) < 50000 => Near((t * c) \div One, s, 6 * tol + 6)
=============================================================================
