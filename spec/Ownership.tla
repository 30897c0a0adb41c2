----------------------------- MODULE Ownership ------------------------------
(* Owning containers and the views of them. What a container holds is a sequence of rows; each container has storage   *)
(* of its own. A copy gives an equal container with other storage, a move hands the storage over and leaves a source   *)
(* that may only be assigned to or destroyed, and a view shows - and may change - what the present owner of its        *)
(* storage holds, until an owner gives that storage up.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Objs, Views
VARIABLES val,       \* of every container
          st,        \* "ok", or "moved": moved from
          store,     \* its storage
          sees,      \* of every view: the storage it refers to, 0: none any more
          tied       \* of every view: it also refers to the container itself (a slice uses the dimensions of its array)
vars == <<val, st, store, sees, tied>>
Numbers == 1..(2 * (Cardinality(Objs) + Cardinality(Views)))
Unused == CHOOSE n \in Numbers : (\A o \in Objs : store[o] # n) /\ (\A k \in Views : sees[k] # n)
Owner(k) == CHOOSE o \in Objs : store[o] = sees[k]
Alive(k) == sees[k] # 0
(* the views of o's storage end; and those tied to p *)
Ended(o) == [k \in Views |-> IF sees[k] = store[o] THEN 0 ELSE sees[k]]
EndTied(s, p) == [k \in Views |-> IF tied[k] /\ s[k] = store[p] THEN 0 ELSE s[k]]

----------------------------------------------------------------------------
(* Changes in place: of one row of x. *)
Take(x, n) == SubSeq(x, 1, IF n < Len(x) THEN n ELSE Len(x))
Drop(x, n) == SubSeq(x, n + 1, Len(x))
InsertAt0(x, i, v) == Take(x, i) \o <<v>> \o Drop(x, i)
EraseAt0(x, i) == Take(x, i) \o Drop(x, i + 1)
Below(x, v) == Cardinality({i \in 1..Len(x) : x[i] < v})
Member(x, v) == \E i \in 1..Len(x) : x[i] = v
Changed(x, c) ==
  LET r == c.r IN
  CASE c.how = "put"      -> [x EXCEPT ![r] = [@ EXCEPT ![c.i + 1] = c.v]]
    [] c.how = "append"   -> [x EXCEPT ![r] = Append(@, c.v)]
    [] c.how = "insert"   -> [x EXCEPT ![r] = InsertAt0(@, c.i, c.v)]
    [] c.how = "erase"    -> [x EXCEPT ![r] = EraseAt0(@, c.i)]
    [] c.how = "member"   -> [x EXCEPT ![r] = IF Member(@, c.v) THEN @ ELSE InsertAt0(@, Below(@, c.v), c.v)]
    [] c.how = "drop"     -> [x EXCEPT ![r] = SelectSeq(@, LAMBDA y : y # c.v)]
    [] c.how = "nonzero"  -> IF Member(x[r], c.c) THEN x
                             ELSE LET i == Below(x[r], c.c) IN [x EXCEPT ![r] = InsertAt0(@, i, c.c), ![r + 1] = InsertAt0(@, i, c.v)]
    [] c.how = "zero"     -> IF ~Member(x[r], c.c) THEN x
                             ELSE LET i == Below(x[r], c.c) IN [x EXCEPT ![r] = EraseAt0(@, i), ![r + 1] = EraseAt0(@, i)]
    [] c.how = "add"      -> [x EXCEPT ![r + 1] = [@ EXCEPT ![Below(x[r], c.c) + 1] = @ + c.v]]

----------------------------------------------------------------------------
Keep(o, kept) == IF kept THEN UNCHANGED <<store, sees>> ELSE store' = [store EXCEPT ![o] = Unused] /\ sees' = Ended(o)
(* Any operation of the container o: what it holds becomes x. *)
Mutate(o, x, kept) == tied' = tied /\ st[o] = "ok" /\ val' = [val EXCEPT ![o] = x] /\ st' = st /\ Keep(o, kept)
Write(o, c) == st[o] = "ok" /\ val' = [val EXCEPT ![o] = Changed(@, c)] /\ UNCHANGED <<st, store, sees, tied>>
Fresh(o, x) == tied' = tied /\ val' = [val EXCEPT ![o] = x] /\ st' = [st EXCEPT ![o] = "ok"] /\ Keep(o, FALSE)
Copy(o, p, kept) ==
  /\ st[p] = "ok" /\ tied' = tied
  /\ val' = [val EXCEPT ![o] = val[p]] /\ st' = [st EXCEPT ![o] = "ok"] /\ Keep(o, kept)
(* fixed: the storage is part of the object *)
Move(o, p, fixed) ==
  /\ st[p] = "ok"
  /\ IF o = p THEN \/ UNCHANGED vars
                   \/ st' = [st EXCEPT ![o] = "moved"] /\ UNCHANGED <<val, tied>> /\ Keep(o, FALSE)
     ELSE /\ tied' = tied
          /\ val' = [val EXCEPT ![o] = val[p]]
          /\ st' = [st EXCEPT ![o] = "ok", ![p] = "moved"]
          /\ IF fixed THEN sees' = [k \in Views |-> IF sees[k] \in {store[o], store[p]} THEN 0 ELSE sees[k]] /\ store' = store
             ELSE store' = [store EXCEPT ![o] = store[p], ![p] = Unused] /\ sees' = EndTied(Ended(o), p)
Swap(o, p, fixed) ==
  /\ st[o] = "ok" /\ st[p] = "ok" /\ st' = st /\ tied' = tied
  /\ val' = [val EXCEPT ![o] = val[p], ![p] = val[o]]
  /\ IF fixed THEN sees' = [k \in Views |-> IF sees[k] \in {store[o], store[p]} THEN 0 ELSE sees[k]] /\ store' = store
     ELSE store' = [store EXCEPT ![o] = store[p], ![p] = store[o]] /\ sees' = IF o = p THEN sees ELSE EndTied(EndTied(sees, o), p)
See(k, o, toObject) == st[o] = "ok" /\ sees' = [sees EXCEPT ![k] = store[o]] /\ tied' = [tied EXCEPT ![k] = toObject] /\ UNCHANGED <<val, st, store>>
SeeAs(k, j) == Alive(j) /\ sees' = [sees EXCEPT ![k] = sees[j]] /\ tied' = [tied EXCEPT ![k] = tied[j]] /\ UNCHANGED <<val, st, store>>
SeeWrite(k, c) == Alive(k) /\ val' = [val EXCEPT ![Owner(k)] = Changed(@, c)] /\ UNCHANGED <<st, store, sees, tied>>
Look == UNCHANGED vars

Type == /\ \A o \in Objs : st[o] \in {"ok", "moved"}
        /\ \A o, p \in Objs : o # p => store[o] # store[p]
        /\ \A k \in Views : Alive(k) => \E o \in Objs : store[o] = sees[k] /\ st[o] = "ok"
=============================================================================
