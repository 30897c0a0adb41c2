------------------------------ MODULE SortTrace -----------------------------
EXTENDS SortCalls, TraceIO
TraceInit == l = 1
TraceNext ==
  /\ More /\ Advance
  /\ \/ Event.op = "begin"
     \/ Event.op = "makeSorted" /\ Sort(Event)
     \/ Event.op = "dualSort" /\ DualSort(Event)
     \/ Event.op = "isSorted" /\ TestSorted(Event)
     \/ Event.op = "isSortedUnique" /\ TestStrict(Event)
     \/ Event.op = "removeDuplicates" /\ Ascends(Event.in, Event) /\ Unique(Event)
     \/ Event.op = "makeSortedUnique" /\ Unique(Event)
     \/ Event.op = "description" /\ Description(Event)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
