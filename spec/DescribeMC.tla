----------------------------- MODULE DescribeMC -----------------------------
(* The size texts on their own, for every byte count around the unit boundaries: at least one text is allowed, at   *)
(* most two, the tenths are a digit, and larger counts never print smaller within a unit.                            *)
EXTENDS Describe
CONSTANT Around
VARIABLE b
Lo(w) == <<w[1], w[2], w[3], w[4]>>
Starts == {Pow2(k) : k \in 6 .. 63} \cup {Zero}
MCInit == Init /\ b \in Starts
MCNext == Ask /\ asked < Around /\ b' = AddW(b, <<0, 0, 0, 37>>)
MCSpec == MCInit /\ [][MCNext]_<<asked, b>>
NonEmpty == Len(CHOOSE t \in SizeTexts(b) : TRUE) >= 6
AtMostTwo == \A s, t, u \in SizeTexts(b) : s = t \/ s = u \/ t = u
OneUnit == \A s \in SizeTexts(b) : s[Len(s)] = 66 /\ s[Len(s) - 1] \in {71, 75, 77}
(* "1024.0 MB" can be printed, "1024.1 MB" can not. *)
Largest == Shift(b) < 30 => \A s \in SizeTexts(b) : Len(s) <= 9
=============================================================================
