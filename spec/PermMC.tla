------------------------------- MODULE PermMC -------------------------------
(* Every sequence of up to MaxDim dimensions, named or not. *)
EXTENDS Integers, Access, TLC, Json
CONSTANT MaxDim
VARIABLES p, n
Init == p = <<>> /\ n \in 1..MaxDim
Next == /\ Len(p) < n /\ UNCHANGED n
        /\ \E d \in -1..n : p' = Append(p, d)
Spec == Init /\ [][Next]_<<p, n>>
Emit == (Len(p') = n) => PrintT("@" \o ToJson([perm |-> p']))
(* Naming every dimension, naming none twice, and being one of the n! orders are the same thing. *)
Once == Len(p) = n => (IsPermutation(p) <=> (\A i \in 1..n : p[i] \in 0..n - 1) /\ (\A i, j \in 1..n : p[i] = p[j] => i = j))
=============================================================================
