---------------------------- MODULE TvDisplayMC ----------------------------
(* All sessions with rows of a few critical lengths. Every transition is printed as the operation path that takes  *)
(* it, for execution by the driver.                                                                                 *)
EXTENDS TvDisplay, Json
CONSTANT Lens            \* lengths of the field name; the type and the address contribute Fixed characters
VARIABLE path
Fixed == 1 + 3 + 1 + 6 + 1   \* TAB "int" TAB "0x1234" NL

Op(o) == path' = Append(path, o)
Next == \/ Pre /\ Op([op |-> "pre"])
        \/ Post /\ Op([op |-> "post"])
        \/ \E n \in Lens : \/ AddRow(TRUE, n + Fixed) /\ Op([op |-> "row", n |-> n, bad |-> 0])
                           \/ AddRow(FALSE, n + Fixed) /\ Op([op |-> "row", n |-> n, bad |-> 1])
Spec == Init /\ path = <<>> /\ [][Next]_<<vars, path>>
View == vars
Emit == PrintT("@" \o ToJson(path'))
(* Adding never shortens the text of a session, except that its first row starts it afresh. *)
Grows == [][mode = "append" => used' >= used]_<<vars, path>>
RefusedChangesNothing == [][(mode' # "append") => used' = used]_<<vars, path>>
Bound == used < Cap
=============================================================================
