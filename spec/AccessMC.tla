------------------------------ MODULE AccessMC ------------------------------
(* Every handle that up to Depth conversions reach, and every conversion a handle must refuse. *)
EXTENDS Access, TLC, Json
CONSTANT Depth
VARIABLES fam, path, h, same
vars == <<fam, path, h, same>>
Last(p) == p[Len(p)]
Within(a, b) ==
  LET rows == Last(path') \in {"row", "~row"}
  IN IF rows /\ a.f = "nd" /\ a.d = 1 THEN Power(b) \ {"shape"} \subseteq Power(a) /\ ("shape" \in Power(b) => "grow" \in Power(a))
     ELSE IF a.f = "aoa" /\ rows THEN Power(b) \subseteq Power(a)
     ELSE Power(b) \subseteq Power(a)
Init == fam \in Families /\ path = <<>> /\ h = Start(fam) /\ same = TRUE
Next == /\ Len(path) < Depth /\ h # None
        /\ \E s \in Steps, tmp \in BOOLEAN :
             LET g == Step(h, s, tmp)
             IN /\ g # Open
                /\ ~(s = "copy" /\ path = <<>>)
                /\ h' = g /\ path' = Append(path, IF tmp THEN "~" \o s ELSE s)
                /\ same' = (same /\ ~Parts(h, s)) /\ UNCHANGED fam
Spec == Init /\ [][Next]_vars
Emit == PrintT("@" \o ToJson([fam |-> fam', path |-> path']))
View == <<fam, h, same, path>>
Reached == h # None
Readable == Reached => "read" \in Power(h) /\ "get" \in Promise(h)
Consistent == Reached => Promise(h) \cap Forbid(h) = {}
(* No use of the values is promised or left open when the handle has no power to write, and so on. *)
Honest == Reached =>
  /\ ("write" \notin Power(h) /\ h.f = "nd" /\ ~Nest(h)) => NdAllWrites \subseteq Forbid(h)
  /\ ("write" \notin Power(h) /\ h.f = "crs") => CrsWrites \subseteq Forbid(h)
  /\ ("rows" \notin Power(h) /\ h.f \in {"aoa"}) => AoaRows \subseteq Forbid(h)
  /\ ("rows" \notin Power(h) /\ h.f \in {"aos", "sp", "crs"}) => SetRows \subseteq Forbid(h)
  /\ ("shape" \notin Power(h) /\ h.f = "nd" /\ ~Nest(h)) => NdAllShapes \subseteq Forbid(h)
  /\ ("shape" \notin Power(h) /\ h.f \in {"aoa", "aos"}) => Allocating \subseteq Forbid(h)
(* A handle never grants more than the one it was made from; a copy of a container is a container of its own.            *)
(* Power over a row or an element is power over the values only.                                                         *)
Monotone == [][h' # None /\ Last(path') # "copy" /\ Last(path') # "~copy" => Within(h, h')]_vars
Views == [][(h' # None /\ Last(path') \in Conversions) => "shape" \notin Power(h')]_vars
(* Read-only views are read-only for good. *)
ReadOnly == [][(h' # None /\ h.f # "nd" /\ Last(path') = "toViewConst") => Power(h') = {"read"}]_vars
ReadOnlyDeep == [][(h' # None /\ Last(path') = "toNestedViewConst") => Power(h') = {"read"}]_vars
Idempotent == Reached => \A s \in Conversions : LET g == Conv(h, s) IN (g \notin {None, Open} /\ h.f = g.f) => Conv(g, s) \in {g, Open}
=============================================================================
