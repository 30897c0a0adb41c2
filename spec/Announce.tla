------------------------------ MODULE Announce ------------------------------
(* What is said when values are copied from one memory space to the other (ChaiBuffer::setName, the setName of the    *)
(* containers, docs/sphinx/bufferClasses.rst and Array.rst): for each copy of an allocation one line with its size,    *)
(* the space it is copied to, and the label of the buffer, the text "type name". A label is given by setName, is the   *)
(* container's type and an empty name before that, and stays with the storage through growth and moves of the          *)
(* container. A container with several buffers says which one by a suffix of the name. Nothing else is said, and       *)
(* nothing at all while callbacks are disabled.                                                                         *)
(* obj[x].may[p] is the set of labels that the p-th buffer of container x may have: where the library leaves open      *)
(* which (a copy of a container, storage taken over from another container) there is more than one.                     *)
EXTENDS Describe

CONSTANT Objects
VARIABLES kind, obj, on, copied, said
vars == <<kind, obj, on, copied, said, asked>>

Kinds == {"buffer", "array", "table", "sorted", "nested", "aoa", "aos", "sparse", "crs"}
Text_values == <<47, 109, 95, 118, 97, 108, 117, 101, 115>>          \* /m_values
Text_sizes == <<47, 109, 95, 115, 105, 122, 101, 115>>               \* /m_sizes
Text_offsets == <<47, 109, 95, 111, 102, 102, 115, 101, 116, 115>>   \* /m_offsets
Text_entries == <<47, 101, 110, 116, 114, 105, 101, 115>>            \* /entries
(* the suffixes of the buffers of a container *)
Suffixes(k) == CASE k \in {"aoa", "aos", "sparse"} -> <<Text_values, Text_sizes, Text_offsets>>
                 [] k = "crs" -> <<Text_values, Text_sizes, Text_offsets, Text_entries>>
                 [] OTHER -> <<<<>>>>
Label(typ, name) == typ \o <<32>> \o name
Labels(k, typ, name) == [p \in DOMAIN Suffixes(k) |-> {Label(typ, name \o Suffixes(k)[p])}]
(* the labels of buffers nobody has named: their own types *)
RawLabels(raw) == [p \in DOMAIN raw |-> {Label(raw[p], <<>>)}]
Both(a, b) == [p \in DOMAIN a |-> a[p] \cup (IF p \in DOMAIN b THEN b[p] ELSE {})]
Gone == [live |-> FALSE, typ |-> <<>>, raw |-> <<>>, may |-> <<>>]

(* ------------------------------------------------------------------------------------------------------ the line *)
Text_moved == <<77, 111, 118, 101, 100, 32>>                                  \* "Moved "
Text_tothe == <<32, 116, 111, 32, 116, 104, 101, 32>>                         \* " to the "
Text_space(s) == IF s = 1 THEN <<72, 79, 83, 84, 32, 32>> ELSE <<68, 69, 86, 73, 67, 69>>      \* "HOST  " "DEVICE"
Blanks(n) == [i \in 1 .. n |-> 32]
Padded9(t) == Blanks(IF Len(t) < 9 THEN 9 - Len(t) ELSE 0) \o t
Lines(c, labels) == {Text_moved \o Padded9(t) \o Text_tothe \o Text_space(c.s) \o <<58, 32>> \o lab : t \in SizeTexts(c.b), lab \in labels}
(* c: a copy of c.b bytes to the space c.s of the buffer c.p of the object c.x, in the labels of objs. *)
Says(objs, copies, lines) ==
  IF ~on THEN lines = <<>>
  ELSE /\ Len(lines) = Len(copies)
       /\ \A i \in DOMAIN copies :
            LET c == copies[i] IN
            /\ c.x \in Objects /\ objs[c.x].live /\ c.p \in DOMAIN objs[c.x].may
            /\ lines[i] \in Lines(c, objs[c.x].may[c.p])
Heard(copies, lines) ==
  /\ Says(obj, copies, lines)
  /\ copied' = copied + (IF on THEN Len(copies) ELSE 0) /\ said' = said + Len(lines)

(* ------------------------------------------------------------------------------------------------- the operations *)
Make(x, typ, raw, inner) ==
  /\ obj' = [obj EXCEPT ![x] = [live |-> TRUE, typ |-> typ, raw |-> raw, may |-> Labels(kind, typ, <<>>)]]
  /\ UNCHANGED <<kind, on>>
Name(x, typ, name) ==
  /\ obj[x].live
  /\ obj' = [obj EXCEPT ![x].may = [p \in DOMAIN @ |-> IF p \in DOMAIN Suffixes(kind) THEN Labels(kind, typ, name)[p] ELSE @[p]]]
  /\ UNCHANGED <<kind, on>>
(* moves, views, loops and growth change no label *)
Same(x) == obj[x].live /\ UNCHANGED <<kind, obj, on>>
(* the number of elements of an array of arrays changes: new ones have the label of a new array *)
Elements(x, n) ==
  /\ kind = "nested" /\ obj[x].live
  /\ obj' = [obj EXCEPT ![x].may = [p \in 1 .. n + 1 |-> IF p \in DOMAIN @ THEN @[p] ELSE {Label(obj[x].raw[2], <<>>)}]]
  /\ UNCHANGED <<kind, on>>
NameElement(x, i, name) ==
  /\ kind = "nested" /\ obj[x].live /\ i + 1 \in DOMAIN obj[x].may
  /\ obj' = [obj EXCEPT ![x].may[i + 1] = {Label(obj[x].raw[2], name)}]
  /\ UNCHANGED <<kind, on>>
DropElement(x, i) ==
  /\ kind = "nested" /\ obj[x].live /\ i + 1 \in DOMAIN obj[x].may
  /\ obj' = [obj EXCEPT ![x].may = SubSeq(@, 1, i) \o SubSeq(@, i + 2, Len(@))]
  /\ UNCHANGED <<kind, on>>
(* x is made as a copy of y, or y is assigned to it: which of the labels the values get the library leaves open, and   *)
(* for the buffers of the container also whether they have the container's type.                                      *)
CopyLabels(x, y) ==
  LET own == Both(Both(Labels(kind, obj[y].typ, <<>>), RawLabels(obj[y].raw)), IF obj[x].live THEN obj[x].may ELSE <<>>)
      old(p) == IF p \in DOMAIN obj[x].may THEN obj[x].may[p] ELSE {} IN
  [p \in DOMAIN obj[y].may |-> IF p \in DOMAIN Suffixes(kind) THEN own[p] \cup obj[y].may[p] ELSE {Label(obj[y].raw[2], <<>>)} \cup obj[y].may[p] \cup old(p)]
Copy(x, y) ==
  /\ x # y /\ obj[y].live /\ kind # "buffer"
  /\ obj' = [obj EXCEPT ![x] = [obj[y] EXCEPT !.may = CopyLabels(x, y)]]
  /\ UNCHANGED <<kind, on>>
(* y is moved into x and is gone *)
MoveInto(x, y) == /\ x # y /\ obj[y].live /\ obj' = [obj EXCEPT ![x] = obj[y], ![y] = Gone] /\ UNCHANGED <<kind, on>>
Swap(x, y) == /\ obj[x].live /\ obj[y].live /\ obj' = [obj EXCEPT ![x] = obj[y], ![y] = obj[x]] /\ UNCHANGED <<kind, on>>
(* x takes over the storage of a container of another kind, whose buffers had the labels theirs *)
Absorb(x, theirs) ==
  /\ kind \in {"aoa", "aos", "crs", "array"} /\ obj[x].live
  /\ obj' = [obj EXCEPT ![x].may = Both(Both(Both(@, Labels(kind, obj[x].typ, <<>>)), [p \in DOMAIN theirs |-> {theirs[p]}]), RawLabels(obj[x].raw))]
  /\ UNCHANGED <<kind, on>>
Free(x) == obj[x].live /\ obj' = [obj EXCEPT ![x] = Gone] /\ UNCHANGED <<kind, on>>
Callbacks(b) == on' = b /\ UNCHANGED <<kind, obj>>

AsManyAsCopies == said = copied
Named == \A x \in Objects : obj[x].live => /\ Len(obj[x].may) >= Len(Suffixes(kind)) /\ \A p \in DOMAIN obj[x].may : obj[x].may[p] # {}
(* After setName every buffer has the one label that was asked for. *)
=============================================================================
