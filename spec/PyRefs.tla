------------------------------- MODULE PyRefs -------------------------------
(* PyObjectRef, the owning reference to a Python object: which object each of the references in use refers to.        *)
(* refs: slot -> -1 no reference object, 0 an empty one, otherwise the number of the object it refers to.             *)
EXTENDS Integers, FiniteSets
VARIABLE refs
RefSlots == {1, 2, 3}
RefObjects == {1, 2}
NoRefs == [s \in RefSlots |-> -1]
(* how many references to object n are owned *)
Owned(n) == Cardinality({s \in RefSlots : refs[s] = n})
RefPossible(do, i, j) ==
  CASE do = "make" -> refs[i] = -1 /\ j = 0
    [] do = "take" -> refs[i] = -1 /\ j \in RefObjects
    [] do \in {"copyMake", "moveMake"} -> refs[i] = -1 /\ j \in RefSlots /\ (IF j \in RefSlots THEN refs[j] # -1 ELSE FALSE)
    [] do \in {"copy", "move"} -> refs[i] # -1 /\ (IF j \in RefSlots THEN refs[j] # -1 ELSE FALSE)
    [] do = "give" -> refs[i] # -1 /\ j \in RefObjects \cup {0}
    [] do = "fill" -> refs[i] = 0 /\ j \in RefObjects \cup {0}
    [] do \in {"release", "end"} -> refs[i] # -1 /\ j = 0
(* take: construct from an object; give: assign an object; fill: write through the address of an empty reference;
   copyMake, copy, moveMake, move: construct from and assign another reference; end: destroy *)
RefStep(do, i, j) ==
  /\ RefPossible(do, i, j)
  /\ refs' = CASE do = "make" -> [refs EXCEPT ![i] = 0]
               [] do \in {"take", "give", "fill"} -> [refs EXCEPT ![i] = j]
               [] do \in {"copyMake", "copy"} -> [refs EXCEPT ![i] = refs[j]]
               [] do \in {"moveMake", "move"} -> (IF i = j THEN refs ELSE [refs EXCEPT ![i] = refs[j], ![j] = 0])
               [] do = "release" -> [refs EXCEPT ![i] = 0]
               [] do = "end" -> [refs EXCEPT ![i] = -1]
RefOps == {"make", "take", "copyMake", "moveMake", "copy", "move", "give", "fill", "release", "end"}
=============================================================================
