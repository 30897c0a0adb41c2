----------------------------- MODULE AnnounceMC -----------------------------
(* Small histories of two containers: where they are and whether they were touched decides when they are copied. *)
EXTENDS Announce, Json
CONSTANTS MaxDepth, ModelKinds
VARIABLES place, path
Op(o) == path' = Append(path, o)
Typ == <<84>>
Raw == IF kind = "nested" THEN <<<<82>>, <<65>>>> ELSE [p \in DOMAIN Suffixes(kind) |-> <<82>>]
Names == {<<>>, <<97>>, <<98, 32, 99>>}
Empty == [last |-> 1, touched |-> FALSE, has |-> FALSE]
Init0 == /\ kind \in ModelKinds /\ obj = [x \in Objects |-> Gone] /\ on = TRUE /\ copied = 0 /\ said = 0 /\ asked = 0
         /\ place = [x \in Objects |-> Empty] /\ path = <<[op |-> "kind", text |-> kind]>>
Silent == copied' = copied /\ said' = said
Bytes == <<0, 0, 0, 4096>>
CopiesTo(x, s) == IF place[x].has /\ place[x].last # s /\ place[x].touched THEN [p \in DOMAIN obj[x].may |-> [x |-> x, p |-> p, b |-> Bytes, s |-> s]] ELSE <<>>
Spoken(copies) == IF ~on THEN <<>> ELSE [i \in DOMAIN copies |-> CHOOSE t \in Lines(copies[i], obj[copies[i].x].may[copies[i].p]) : TRUE]
At(x, s, t) == place' = [place EXCEPT ![x] = [last |-> s, touched |-> t \/ (@.last = s /\ @.touched), has |-> @.has]]
Next ==
  /\ asked' = asked
  /\ \E x \in Objects :
     \/ ~obj[x].live /\ Make(x, Typ, Raw, <<>>) /\ Silent /\ place' = [place EXCEPT ![x] = Empty] /\ Op([op |-> "make", x |-> x, how |-> Len(path) % 2])
     \/ \E n \in Names : Name(x, Typ, n) /\ Silent /\ UNCHANGED place /\ Op([op |-> "name", x |-> x, n |-> Len(n)])
     \/ /\ Same(x) /\ Heard(CopiesTo(x, 1), Spoken(CopiesTo(x, 1)))
        /\ place' = [place EXCEPT ![x] = [last |-> 1, touched |-> TRUE, has |-> TRUE]] /\ Op([op |-> "grow", x |-> x, how |-> Len(path)])
     \/ \E s \in {1, 2}, t \in BOOLEAN, h \in {0, 1} :
          /\ Same(x) /\ Heard(CopiesTo(x, s), Spoken(CopiesTo(x, s))) /\ At(x, s, t)
          /\ (h = 1 => t) /\ Op([op |-> IF h = 1 THEN "view" ELSE "move", x |-> x, s |-> s, t |-> IF t THEN 1 ELSE 0, how |-> Len(path)])
     \/ \E y \in Objects \ {x} :
        \/ place[y].last = 1 /\ Copy(x, y) /\ Silent /\ place' = [place EXCEPT ![x] = [place[y] EXCEPT !.touched = TRUE]] /\ Op([op |-> "copy", x |-> x, y |-> y])
        \/ MoveInto(x, y) /\ Silent /\ place' = [place EXCEPT ![x] = place[y], ![y] = Empty] /\ Op([op |-> "into", x |-> x, y |-> y, how |-> Len(path)])
        \/ x < y /\ Swap(x, y) /\ Silent /\ place' = [place EXCEPT ![x] = place[y], ![y] = place[x]] /\ Op([op |-> "swap", x |-> x, y |-> y])
     \/ kind = "nested" /\ place[x].last = 1 /\ Len(obj[x].may) < 3 /\ Elements(x, Len(obj[x].may)) /\ Silent /\ UNCHANGED place /\ Op([op |-> "elements", x |-> x, n |-> Len(obj[x].may)])
     \/ kind = "nested" /\ place[x].last = 1 /\ \E i \in 1 .. 2 : NameElement(x, i, <<97>>) /\ Silent /\ UNCHANGED place /\ Op([op |-> "nameElement", x |-> x, i |-> i, n |-> 1])
     \/ kind = "nested" /\ place[x].last = 1 /\ \E i \in 1 .. 2 : DropElement(x, i) /\ Silent /\ UNCHANGED place /\ Op([op |-> "drop", x |-> x, i |-> i])
     \/ x = 1 /\ Callbacks(~on) /\ Silent /\ UNCHANGED place /\ Op([op |-> "callbacks", n |-> IF on THEN 0 ELSE 1])
Spec == Init0 /\ [][Next]_<<vars, place, path>>
Bound == Len(path) <= MaxDepth
View == <<kind, obj, on, place, said = copied, path[Len(path)].op>>
Emit == PrintT("@" \o ToJson(path'))
(* A move to the other space is announced exactly when it copies, with the labels given last. *)
OnceNamed == [][path' # path /\ path'[Len(path')].op = "name" => \A p \in DOMAIN Suffixes(kind) : \A x \in {path'[Len(path')].x} : \E lab \in obj'[x].may[p] : obj'[x].may[p] = {lab}]_<<vars, place, path>>
=============================================================================
