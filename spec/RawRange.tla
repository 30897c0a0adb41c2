----------------------------- MODULE RawRange -------------------------------
(* The routines on raw ranges: s is the live part of a block of storage. Positions count from 0. The sorted routines *)
(* need s to be strictly ascending (searches: ascending or descending) and describe their changes by call-backs.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
VARIABLE s
Min2(a, b) == IF a < b THEN a ELSE b
Take(x, n) == SubSeq(x, 1, n)
Drop(x, n) == SubSeq(x, n + 1, Len(x))
InsertRange(x, i, vals) == Take(x, i) \o vals \o Drop(x, i)
EraseRange(x, i, n) == Take(x, i) \o Drop(x, i + n)
Fill(n, v) == [k \in 1..n |-> v]
Resized(x, n, v) == IF n <= Len(x) THEN Take(x, n) ELSE x \o Fill(n - Len(x), v)
Ascending(x) == \A i \in 1..(Len(x) - 1) : x[i] < x[i + 1]
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

Assign(vals) == s' = vals
Resize(n, v) == s' = Resized(s, n, v)
Insert(i, vals) == i \in 0..Len(s) /\ s' = InsertRange(s, i, vals)
Erase(i, n) == i + n <= Len(s) /\ s' = EraseRange(s, i, n)
Push(v) == s' = Append(s, v)
Pop == Len(s) > 0 /\ s' = Front(s)
Look == UNCHANGED s
Find(v, desc) == Cardinality({i \in DOMAIN s : IF desc THEN s[i] > v ELSE s[i] < v})
Member(v) == \E i \in DOMAIN s : s[i] = v
SetInsert(vals) == Ascending(s) /\ Ascending(vals) /\ s' = Sorted(ToSet(s) \cup ToSet(vals))
SetRemove(vals) == Ascending(s) /\ Ascending(vals) /\ s' = Sorted(ToSet(s) \ ToSet(vals))

(* What a client learns from the call-backs, applied to storage that holds the companions of s (here: s itself).     *)
(* Undefined positions hold a value no element has.                                                                  *)
Junk == -999999
Put(m, k, v) == [m EXCEPT ![k + 1] = v]
Apply(m, c, vals) ==
  CASE c[1] = 1 -> LET n == c[2]
                       vp == c[3]
                       pos == c[4]
                       prev == c[5]
                       moved == [k \in DOMAIN m |-> IF k - 1 >= pos + n /\ k - 1 < prev + n THEN m[k - n] ELSE m[k]]
                   IN Put(moved, pos + n - 1, vals[vp + 1])
    [] c[1] = 2 -> Put(m, c[2], vals[c[3] + 1])
    [] c[1] = 3 -> [k \in DOMAIN m |-> IF k - 1 > c[2] THEN m[k - 1] ELSE IF k - 1 = c[2] THEN vals[1] ELSE m[k]]
    [] c[1] = 4 -> [k \in DOMAIN m |-> IF k - 1 >= c[2] /\ k < Len(m) THEN m[k + 1] ELSE m[k]]
    [] c[1] = 5 -> LET n == c[2] IN [k \in DOMAIN m |-> IF k - 1 >= c[3] + 1 - n /\ k - 1 < c[4] - n THEN m[k + n] ELSE m[k]]
    [] c[1] = 6 -> m
RECURSIVE Replay(_, _, _)
Replay(m, cbs, vals) == IF cbs = <<>> THEN m ELSE Replay(Apply(m, Head(cbs), vals), Tail(cbs), vals)
Increments(cbs) == SelectSeq(cbs, LAMBDA c : c[1] = 6)
ReproducesInsert(cbs, vals) ==
  /\ Increments(cbs) = <<<<6, Len(s') - Len(s)>>>>      \* asked for room exactly once, before using it
  /\ Len(cbs) > 1 => cbs[1][1] = 6
  /\ Replay(s \o Fill(Len(s') - Len(s), Junk), cbs, vals) = s'
ReproducesRemove(cbs) == Take(Replay(s, cbs, <<>>), Len(s')) = s' /\ Increments(cbs) = <<>>
=============================================================================
