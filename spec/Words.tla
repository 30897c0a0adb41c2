------------------------------- MODULE Words -------------------------------
(* Unsigned 64-bit words as four base-2^16 limbs, most significant first, and signed integers as <<sign>> \o limbs *)
(* (sign 1 for negative, magnitude in the limbs): TLC's own integers have 32 bits.                                 *)
EXTENDS Integers, Sequences

Base == 65536
Limb == 0 .. Base - 1
IsWord(w) == w \in [1 .. 4 -> Limb]

RECURSIVE P2(_)
P2(k) == IF k <= 0 THEN 1 ELSE 2 * P2(k - 1)

(* 2^n, for n in 0..63 *)
Pow2(n) == [i \in 1 .. 4 |-> LET k == n - 16 * (4 - i) IN IF k >= 0 /\ k < 16 THEN P2(k) ELSE 0]
(* 2^n - 1, for n in 0..64 *)
Ones(n) == [i \in 1 .. 4 |-> LET k == n - 16 * (4 - i) IN IF k >= 16 THEN Base - 1 ELSE IF k <= 0 THEN 0 ELSE P2(k) - 1]

Zero == <<0, 0, 0, 0>>

RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > 4 THEN FALSE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)
Less(a, b) == LexLess(a, b, 1)
Leq(a, b) == a = b \/ Less(a, b)

Mag(v) == <<v[2], v[3], v[4], v[5]>>
Negative(v) == v[1] = 1

(* The mathematical integer v is representable in a two's complement type of this many bits. *)
Fits(v, bits, signed) ==
  IF Negative(v) THEN signed /\ Leq(Mag(v), Pow2(bits - 1))
  ELSE Leq(Mag(v), Ones(IF signed THEN bits - 1 ELSE bits))

(* Long division of a word by a small number (below 2^15), giving quotient and remainder. *)
RECURSIVE DivStep(_, _, _, _)
DivStep(w, d, i, r) ==
  IF i > 4 THEN [q |-> <<>>, r |-> r]
  ELSE LET x == r * Base + w[i]
           rest == DivStep(w, d, i + 1, x % d)
       IN [q |-> <<x \div d>> \o rest.q, r |-> rest.r]
DivMod(w, d) == DivStep(w, d, 1, 0)

(* The decimal digits of a word. *)
RECURSIVE Decimal(_)
Decimal(w) == LET qr == DivMod(w, 10) IN IF qr.q = Zero THEN <<qr.r>> ELSE Append(Decimal(qr.q), qr.r)

(* A + B on words, modulo 2^64. *)
RECURSIVE AddStep(_, _, _, _)
AddStep(a, b, i, carry) ==
  IF i < 1 THEN <<>>
  ELSE LET x == a[i] + b[i] + carry IN Append(AddStep(a, b, i - 1, x \div Base), x % Base)
AddW(a, b) == AddStep(a, b, 4, 0)
=============================================================================
