------------------------------ MODULE TextIOMC ------------------------------
(* Every text over a small alphabet up to a length, and every text one edit away from a well formed one.             *)
EXTENDS TextIO, TLC, Json
CONSTANTS Short,                \* length of the texts with blanks
          Longer,               \* length of those without
          Edits                 \* number of edits
VARIABLES text, mode, left
mcvars == <<vars, text, mode, left>>
One == 49
Letters == {Open, Close, Comma, One}
Dims == {<<1>>, <<2>>, <<3>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 1, 1>>, <<2, 1, 1>>, <<1, 1, 2>>, <<1, 2, 1>>, <<2, 1, 2>>, <<1, 1, 1, 1>>, <<2, 1, 1, 2>>, <<1, 2, 1, 1>>}
Samples == <<<<49>>, <<45, 55>>, <<51, 46, 53>>, <<120, 121>>, <<52, 48, 48, 48, 48>>, <<48, 50>>>>
Spaced(t) == Cat([k \in 1..Len(t) |-> IF IsValue(t[k]) THEN <<t[k]>> ELSE <<Space, t[k], Space>>])
Plain(d, s) == Render(d, [k \in 1..Product(d) |-> Samples[1 + ((k + s) % Len(Samples))]])
Integers(d) == Render(d, [k \in 1..Product(d) |-> Decimal(k)])
Bases == UNION {{Integers(d), Spaced(Integers(d))} : d \in Dims} \cup {Plain(d, s) : d \in {<<1>>, <<2>>, <<1, 2>>}, s \in 0..5} \cup {<<Open, Close>>, <<Open, Space, Close>>}
MCInit == /\ Init
          /\ \/ text = <<>> /\ mode = "blanks" /\ left = Short
             \/ text = <<>> /\ mode = "plain" /\ left = Longer
             \/ text = <<>> /\ mode = "base" /\ left = 1
Pieces == {Open, Close, Comma, Space, 55, Minus, 120, Point}
InsertAt(t, k, c) == SubSeq(t, 1, k) \o <<c>> \o SubSeq(t, k + 1, Len(t))
DeleteAt(t, k) == SubSeq(t, 1, k - 1) \o SubSeq(t, k + 1, Len(t))
Edited(t) == {InsertAt(t, k, c) : k \in 0..Len(t), c \in Pieces} \cup {DeleteAt(t, k) : k \in 1..Len(t)}
             \cup {[t EXCEPT ![k] = c] : k \in 1..Len(t), c \in Pieces}
             \cup {[t EXCEPT ![k] = t[k + 1], ![k + 1] = t[k]] : k \in 1..(Len(t) - 1)}
MCNext ==
  /\ left > 0 /\ UNCHANGED vars
  /\ \/ mode = "blanks" /\ \E c \in Letters \cup {Space} : text' = Append(text, c) /\ left' = left - 1 /\ UNCHANGED mode
     \/ mode = "plain" /\ \E c \in Letters : text' = Append(text, c) /\ left' = left - 1 /\ UNCHANGED mode
     \/ mode = "base" /\ text' \in Bases /\ mode' = "edit" /\ left' = Edits
     \/ mode = "edit" /\ text' \in Edited(text) /\ left' = left - 1 /\ UNCHANGED mode
Spec == MCInit /\ [][MCNext]_mcvars
Emit == PrintT("@" \o ToJson(<<[op |-> "read", text |-> text']>>))
(* The recogniser accepts exactly the texts the renderer produces: what it accepts is what rendering its meaning      *)
(* gives, and (for the bases) it accepts what is rendered, with the meaning it was rendered from. Whatever the         *)
(* number of dimensions, at most one accepts the text, but for "{}".                                                   *)
Sound == \A d \in 1..4 : WellFormed("word", d, text) => LET m == Meaning("word", d, text) IN
           /\ Len(m.dims) = d /\ Len(m.vals) = Product(m.dims)
           /\ Strip(text) = (IF m.vals = <<>> THEN <<Open, Close>> ELSE Render(m.dims, m.vals))
Unique == Cardinality({d \in 1..4 : WellFormed("word", d, text)}) \in {0, 1} \cup (IF Strip(text) = <<Open, Close>> THEN {4} ELSE {})
Typed == \A d \in 1..3, k \in {"int", "real", "short"} : WellFormed(k, d, text) => WellFormed("word", d, text)
Complete == text = <<>> => \A d \in Dims : LET v == [k \in 1..Product(d) |-> k - 3] IN
              LET t == Render(d, Numbers(v)) IN WellFormed("int", Len(d), t) /\ Meaning("int", Len(d), Spaced(t)) = [dims |-> d, vals |-> v]
                 /\ Meaning("real", Len(d), t) = [dims |-> d, vals |-> [k \in 1..Product(d) |-> 1000 * (k - 3)]]
=============================================================================
