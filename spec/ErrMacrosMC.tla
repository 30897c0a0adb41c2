----------------------------- MODULE ErrMacrosMC ----------------------------
(* Every macro with every ordering of its operands, in every handler state. Each transition is printed as the path  *)
(* that takes it.                                                                                                    *)
EXTENDS ErrMacros, Json
CONSTANT MaxCalls
VARIABLE path
Op(o) == path' = Append(path, o)
Kinds == {"ERROR", "THROW", "ASSERT", "WARNING", "INFO"}
Rels(kind) == CASE kind = "ASSERT" -> {"EQ", "NE", "GT", "GE", "IF"}
                [] kind \in {"WARNING", "INFO"} -> {"IF", "ALWAYS"}
                [] kind = "THROW" -> {"EQ", "NE", "GT", "GE", "LT", "LE", "IF"}
                [] OTHER -> {"EQ", "NE", "GT", "GE", "LT", "LE", "IF", "ALWAYS"}
Next ==
  \/ \E h \in Handlers : Install(h) /\ Op([op |-> "set", h |-> h])
  \/ InstallNull /\ Op([op |-> "setnull"])
  \/ Call /\ Op([op |-> "call"])
  \/ \E k \in Kinds : \E r \in Rels(k) : \E ab \in {<<0, 1>>, <<1, 1>>, <<1, 0>>} : \E m \in {0, 1} :
       Use(k, r, ab[1], ab[2], TRUE) /\ Op([op |-> "macro", kind |-> k, rel |-> r, a |-> ab[1], b |-> ab[2], msg |-> m])
Small == \A h \in Handlers : calls[h] <= MaxCalls
Spec == Init /\ path = <<>> /\ [][Next]_<<vars, path>>
View == vars
Emit == PrintT("@" \o ToJson(path'))
(* Only the handler in force is called, and once at a time. *)
OneCall == [][calls' = calls \/ (handler # 0 /\ calls' = [calls EXCEPT ![handler] = @ + 1] /\ handler' = handler)]_<<vars, path>>
=============================================================================
