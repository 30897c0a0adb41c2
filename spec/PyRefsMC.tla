------------------------------ MODULE PyRefsMC ------------------------------
EXTENDS PyRefs, Sequences, TLC, Json
CONSTANT MaxDepth
VARIABLE path
Init == refs = NoRefs /\ path = <<[op |-> "kinds", kinds |-> <<"">>]>>
Next == \E do \in RefOps, i \in RefSlots, j \in RefSlots \cup {0} :
          RefStep(do, i, j) /\ path' = Append(path, [op |-> "ref", do |-> do, i |-> i, o |-> j])
Spec == Init /\ [][Next]_<<refs, path>>
Bound == Len(path) <= MaxDepth
View == <<refs, path[Len(path)]>>
Emit == PrintT("@" \o ToJson(path'))
Type == refs \in [RefSlots -> {-1, 0} \cup RefObjects]
(* Only the two references an operation is about change, and only assignments and ends give up an object. *)
Local == [][path' # path => LET a == path'[Len(path')] IN \A s \in RefSlots : refs'[s] # refs[s] => s = a.i \/ (s = a.o /\ a.do \in {"move", "moveMake"})]_<<refs, path>>
(* Moving passes ownership on: nothing is copied. *)
Moves == [][path' # path => LET a == path'[Len(path')] IN a.do = "moveMake" => \A n \in RefObjects : Owned(n)' = Owned(n)]_<<refs, path>>
=============================================================================
