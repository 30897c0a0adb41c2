---------------------------- MODULE AccessTrace ----------------------------
EXTENDS Access, TraceIO
Plain(s) == CHOOSE p \in Steps : s \in {p, "~" \o p}
RECURSIVE Follow(_, _)
Follow(p, n) ==
  IF n = 0 THEN [h |-> Start(p.fam), same |-> TRUE, n |-> Shown(p.fam)]
  ELSE LET b == Follow(p, n - 1)
           s == Plain(p.path[n])
       IN IF b.h \in {None, Open} THEN b
          ELSE [h |-> Step(b.h, s, s # p.path[n]), same |-> b.same /\ ~Parts(b.h, s), n |-> IF s = "row" THEN RowLength ELSE b.n]
Ok(e) ==
  LET w == Follow(e, Len(e.path))
  IN CASE w.h = None -> e.exists = 0
       [] w.h = Open -> TRUE
       [] OTHER -> /\ e.exists = 1 /\ e.ran = 1 /\ e.count = w.n
                   /\ e.same = (IF w.same THEN 1 ELSE 0)
                   /\ LET g == {e.grants[i] : i \in 1..Len(e.grants)}
                          offered == {e.offered[i] : i \in 1..Len(e.offered)}
                      IN /\ Promise(w.h) \cap offered \subseteq g
                         /\ Forbid(w.h) \cap g = {}
                         /\ Named(w.h) \cap offered \subseteq g
Perm(e) ==
  /\ e.valid = (IF IsPermutation(e.perm) THEN 1 ELSE 0)
  /\ e.dim = Len(e.perm)
  /\ IsPermutation(e.perm) => e.unit = e.perm[Len(e.perm)] /\ e.list = e.perm
  /\ Obs(e, "array", IF IsPermutation(e.perm) THEN 1 ELSE 0)
TraceInit == l = 1
TraceNext == More /\ Advance /\ (Event.op = "begin" \/ (Event.op = "handle" /\ Ok(Event)) \/ (Event.op = "perm" /\ Perm(Event)))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
