---------------------------- MODULE RowsTraceIO -----------------------------
(* Reading what the drivers of the row containers report after every operation. *)
EXTENDS Rows, TraceIO, FiniteSetsExt
CapFacet == Checks("capacity")
MemOf(m) == [vcap |-> m[1], rcap |-> m[2], addr |-> m[3], starts |-> SubSeq(m, 4, Len(m))]
Storage(e) == caps' = [o \in Objs |-> e.caps[o]] /\ mem' = [o \in Objs |-> MemOf(e.mem[o])]
Count(rs) == SumSeq([i \in 1..Len(rs) |-> Len(rs[i])])
Live == FoldSet(LAMBDA o, n : n + Count(rows'[o]), 0, Objs)
NoRows == [o \in Objs |-> <<>>]
AllEmpty == rows' = NoRows /\ ok' = [o \in Objs |-> TRUE]
Gone(e) == AllEmpty /\ UNCHANGED <<caps, mem>> /\ (Checks("life") => Obs(e, "live", 0) /\ Obs(e, "bad", 0) /\ Obs(e, "mem", 0))
RowsInit == rows = NoRows /\ caps = NoRows /\ ok = [o \in Objs |-> TRUE]
            /\ mem = [o \in Objs |-> [vcap |-> 0, rcap |-> 0, addr |-> 0, starts |-> <<>>]] /\ l = 1
(* ns: number of rows; sizes: length of each row, read in another way than the contents; rows: what of a row is shown *)
RowsSeenAs(e, Shown(_)) ==
  \A o \in Objs : /\ e.ns[o] = Len(rows'[o])
                  /\ ok'[o] => /\ e.rows[o] = [i \in 1..Len(rows'[o]) |-> Shown(rows'[o][i])]
                              /\ e.sizes[o] = [i \in 1..Len(rows'[o]) |-> Len(rows'[o][i])]
RowsAfterAs(e, Shown(_), living) ==
  /\ Checks("contents") => RowsSeenAs(e, Shown)
  /\ Checks("capacity") => LaidOutNext
  /\ Checks("life") => Obs(e, "live", living) /\ Obs(e, "bad", 0)
RowsAfter(e) == RowsAfterAs(e, LAMBDA r : r, Live)
=============================================================================
