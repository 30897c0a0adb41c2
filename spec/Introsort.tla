----------------------------- MODULE Introsort ------------------------------
(* The sorting algorithm of src/sortedArrayManipulationHelpers.hpp: partition loop with an explicit stack of range   *)
(* boundaries that may give up on a range, then one insertion sort. Two ranges are sorted alike: a carries the keys, *)
(* d the paired data.                                                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxLen, Keys, Threshold, MaxRanges

VARIABLES in, a, d, stack, phase
vars == <<in, a, d, stack, phase>>

Swap(x, i, j) == [x EXCEPT ![i] = x[j], ![j] = x[i]]
Both(x, i, j) == [k |-> Swap(x.k, i, j), d |-> Swap(x.d, i, j)]

(* The median of positions i, j, k of x goes to position r. *)
MedianPos(x, i, j, k) ==
  IF x.k[i] < x.k[j]
    THEN IF x.k[j] < x.k[k] THEN j ELSE IF x.k[i] < x.k[k] THEN k ELSE i
    ELSE IF x.k[i] < x.k[k] THEN i ELSE IF x.k[j] < x.k[k] THEN k ELSE j

(* The scans have no range test: they must stop inside [lo, hi) by themselves. -1 marks a scan that does not. *)
RECURSIVE Up(_, _, _, _, _)
Up(x, f, p, lo, hi) == IF f < lo \/ f >= hi THEN -1 ELSE IF x.k[f] < x.k[p] THEN Up(x, f + 1, p, lo, hi) ELSE f
RECURSIVE Down(_, _, _, _, _)
Down(x, f, p, lo, hi) == IF f < lo \/ f >= hi THEN -1 ELSE IF x.k[p] < x.k[f] THEN Down(x, f - 1, p, lo, hi) ELSE f
RECURSIVE Part(_, _, _, _, _, _)
Part(x, f, b, p, lo, hi) ==
  LET f2 == Up(x, f, p, lo, hi)
      b2 == IF f2 = -1 THEN -1 ELSE Down(x, b - 1, p, lo, hi)
  IN IF f2 = -1 \/ b2 = -1 THEN [x |-> x, cut |-> -1]
     ELSE IF ~(f2 < b2) THEN [x |-> x, cut |-> f2]
     ELSE Part(Both(x, f2, b2), f2 + 1, b2, p, lo, hi)
Partition(x, lo, hi) ==
  LET mid == lo + (hi - lo) \div 2
      y == Both(x, lo, MedianPos(x, lo + 1, mid, hi - 1))
  IN Part(y, lo + 1, hi, lo, lo, hi)

RECURSIVE Insert(_, _)
Insert(x, i) == IF i > 1 /\ x.k[i] < x.k[i - 1] THEN Insert(Both(x, i, i - 1), i - 1) ELSE x
RECURSIVE InsertAll(_, _)
InsertAll(x, i) == IF i > Len(x.k) THEN x ELSE InsertAll(Insert(x, i), i + 1)

Init == /\ in \in UNION {[1..n -> Keys] : n \in 0..MaxLen}
        /\ a = in /\ d = [i \in DOMAIN in |-> i]
        /\ stack = <<1, Len(in) + 1>>
        /\ phase = IF Len(in) > Threshold THEN "loop" ELSE "insert"

Top == Len(stack) - 1          \* number of ranges on the stack
Step ==
  /\ phase = "loop"
  /\ IF Top = 0 THEN phase' = "insert" /\ UNCHANGED <<in, a, d, stack>>
     ELSE LET lo == stack[Top] hi == stack[Top + 1] IN
       IF hi - lo > Threshold /\ Top < MaxRanges
         THEN LET r == Partition([k |-> a, d |-> d], lo, hi) IN
              /\ Assert(r.cut # -1, "a scan left its range")
              /\ a' = r.x.k /\ d' = r.x.d
              /\ stack' = [stack EXCEPT ![Top + 1] = r.cut] \o <<hi>>
              /\ UNCHANGED <<in, phase>>
         ELSE stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<in, a, d, phase>>
Final == /\ phase = "insert"
         /\ LET r == InsertAll([k |-> a, d |-> d], 1) IN a' = r.k /\ d' = r.d
         /\ phase' = "done" /\ UNCHANGED <<in, stack>>
Next == Step \/ Final
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sorted(x) == \A i \in 1..(Len(x) - 1) : ~(x[i + 1] < x[i])
Paired == /\ {d[i] : i \in DOMAIN d} = DOMAIN in
          /\ \A i \in DOMAIN a : a[i] = in[d[i]]
StackFits == Len(stack) <= MaxRanges + 1 /\ \A i \in 1..(Len(stack) - 1) : stack[i] <= stack[i + 1]
DoneSorted == phase = "done" => Sorted(a)
Terminates == <>(phase = "done")
=============================================================================
