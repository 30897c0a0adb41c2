------------------------------ MODULE FpEnvMC -------------------------------
EXTENDS FpEnv, Sequences, Json, SequencesExt
CONSTANT Sets, MaxDepth
VARIABLE path
Op(o) == path' = Append(path, o)
(* Drivers take the numbers of the exceptions. *)
Names == <<"DIVBYZERO", "OVERFLOW", "INVALID", "UNDERFLOW", "INEXACT">>
L(S) == SetToSeq({i - 1 : i \in {j \in 1..5 : Names[j] \in S}})
Next ==
  \/ \E S \in Sets : Enable(S) /\ Op([op |-> "enable", b |-> L(S)])
  \/ \E S \in Sets : Disable(S) /\ Op([op |-> "disable", b |-> L(S)])
  \/ \E g \in GuardIds, S \in Sets : NewGuard(g, S) /\ Op([op |-> "guard", g |-> g, b |-> L(S)])
  \/ \E g \in GuardIds : EndGuard(g) /\ Op([op |-> "unguard", g |-> g])
  \/ SetFPE /\ Op([op |-> "setFPE"])
Spec == Init /\ path = <<>> /\ [][Next]_<<vars, path>>
View == vars
Bound == Len(path) < MaxDepth
Emit == PrintT("@" \o ToJson(path'))
MCSets == {{"DIVBYZERO"}, {"OVERFLOW", "INEXACT"}, {"INVALID", "UNDERFLOW"}}
AllSets == {{}, {"DIVBYZERO"}, {"OVERFLOW"}, {"INVALID"}, {"UNDERFLOW"}, {"INEXACT"}, Default, Exceptions}
=============================================================================
