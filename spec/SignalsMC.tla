----------------------------- MODULE SignalsMC ------------------------------
EXTENDS Signals, Json
VARIABLES path, origin       \* origin: what the listed signals had when nothing was installed
CONSTANT MaxDepth
Op(o) == path' = Append(path, o)
Keep == origin' = IF first = <<>> THEN disp' ELSE origin
Next ==
  \/ \E s \in Sigs \ {9}, d \in {0, 1, 2} : User(s, d) /\ Keep /\ Op([op |-> "user", s |-> s, d |-> d])
  \/ \E h \in {0, 4, 6} : Install(h) /\ UNCHANGED origin /\ Op([op |-> "install", h |-> h])
  \/ Reset /\ UNCHANGED origin /\ Op([op |-> "reset"])
  \/ ~errh /\ ErrorHandler /\ UNCHANGED origin /\ Op([op |-> "errh"])
  \/ StackTrace(TRUE) /\ UNCHANGED origin /\ Op([op |-> "trace", s |-> 11, exit |-> 1])
  \/ StackTrace(FALSE) /\ UNCHANGED origin /\ Op([op |-> "trace", s |-> 8, exit |-> 0])
Spec == Init /\ path = <<>> /\ origin = disp /\ [][Next]_<<vars, path, origin>>
View == <<vars, origin>>
Bound == Len(path) < MaxDepth
Emit == PrintT("@" \o ToJson(path'))
IsReset == path' # path /\ path'[Len(path')].op = "reset"
ResetRestores == [][IsReset /\ first # <<>> /\ first' = <<>> => \A s \in Listed : disp'[s] = origin[s]]_<<vars, path, origin>>
OthersUntouched == [][path' # path /\ path'[Len(path')].op # "user" => \A s \in Other : disp'[s] = disp[s]]_<<vars, path, origin>>
=============================================================================
