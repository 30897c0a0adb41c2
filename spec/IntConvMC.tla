----------------------------- MODULE IntConvMC -----------------------------
(* The decision procedure of integerConversion, transcribed case by case over every pair of types of up to MaxBits *)
(* bits and every value, against the definition: same value, or an error exactly when the target cannot hold it.   *)
EXTENDS Integers
CONSTANT MaxBits

Type == [bits : 1 .. MaxBits, signed : BOOLEAN]
RECURSIVE P2(_)
P2(k) == IF k <= 0 THEN 1 ELSE 2 * P2(k - 1)
Low(t) == IF t.signed THEN - P2(t.bits - 1) ELSE 0
High(t) == IF t.signed THEN P2(t.bits - 1) - 1 ELSE P2(t.bits) - 1
Holds(t, v) == v >= Low(t) /\ v <= High(t)
Digits(t) == IF t.signed THEN t.bits - 1 ELSE t.bits
(* Reduction modulo 2^bits, what static_cast does. *)
Wrap(t, v) == LET m == P2(t.bits) r == v % m IN IF t.signed /\ r > High(t) THEN r - m ELSE r

VARIABLES in, out, v, pc, res
vars == <<in, out, v, pc, res>>

Easy(s, d) == Digits(s) <= Digits(d) /\ (d.signed \/ ~s.signed)

Init == /\ in \in Type /\ out \in Type
        /\ v \in Low(in) .. High(in)
        /\ pc = "start" /\ res = 0
Return == /\ pc \in {"easy", "checked"} /\ pc' = "done" /\ res' = Wrap(out, v) /\ UNCHANGED <<in, out, v>>
Fail == pc' = "error" /\ UNCHANGED <<in, out, v, res>>
Go(x) == pc' = x /\ UNCHANGED <<in, out, v, res>>
Dispatch == pc = "start" /\ Go(IF Easy(in, out) THEN "easy" ELSE IF in.signed THEN "low" ELSE "high")
CheckLow == pc = "low" /\ IF v < Low(out) THEN Fail ELSE Go("high")
CheckHigh == pc = "high" /\ IF v > High(out) THEN Fail ELSE Go("checked")
Next == Dispatch \/ CheckLow \/ CheckHigh \/ Return
Spec == Init /\ [][Next]_vars

Faithful == /\ pc = "done" => res = v /\ Holds(out, v)
            /\ pc = "error" => ~Holds(out, v)
(* The upper check is only reached with a value that no longer changes when made unsigned. *)
NoWrapBeforeCheck == (pc = "high" /\ ~out.signed) => v >= 0
=============================================================================
