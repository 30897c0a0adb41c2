----------------------------- MODULE NumericMC ------------------------------
(* The functions of Numeric against their laws, over small domains. *)
EXTENDS Numeric
VARIABLES a, b
Small == {Norm(m, e) : m \in -4..4, e \in -2..2}
Int5(x) == IF x < 0 THEN <<1, 0, 0, 0, -x>> ELSE <<0, 0, 0, 0, x>>
Init == a \in -9..9 /\ b \in -9..9
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
IntLaws == /\ MaxI(Int5(a), Int5(b)) = Int5(IF a > b THEN a ELSE b)
           /\ MinI(Int5(a), Int5(b)) = Int5(IF a < b THEN a ELSE b)
           /\ AbsI(Int5(a)) = Int5(Abs(a))
DyadicLaws == \A x, y \in Small : /\ MaxD(x, y) = MaxD(y, x) /\ (MaxD(x, y) = x <=> MinD(x, y) = y)
                                  /\ ~DLess(MaxD(x, y), x) /\ ~DLess(y, MinD(x, y))
                                  /\ SquareD(AbsD(x)) = SquareD(x) /\ ~DLess(AbsD(x), x)
RootLaw == Root(a * a, 0) = Abs(a)
TableLaws == \A k \in 0..47 : /\ Pythagoras(SinAt(k), CosAt(k), 1)
                              /\ Near(SinAt(2 * k), (2 * SinAt(k) * CosAt(k)) \div One, 3)
                              /\ SinAt(k + 12) = -SinAt(k)
LimitLaws == \A n \in {8, 16, 32, 64}, s \in BOOLEAN :
               /\ Fits(IntLimit(n, s, "max"), n, s) /\ Fits(IntLimit(n, s, "min"), n, s)
               /\ ~SLess(IntLimit(n, s, "max"), IntLimit(n, s, "min"))
=============================================================================
