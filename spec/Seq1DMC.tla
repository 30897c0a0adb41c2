------------------------------ MODULE Seq1DMC -------------------------------
EXTENDS Seq1D, Json
CONSTANTS Vals, MaxLen, MaxDepth
VARIABLE path
Op(o) == path' = Append(path, o)
Init == seq = [o \in Objs |-> <<>>] /\ cap = [o \in Objs |-> 0] /\ addr = [o \in Objs |-> 0] /\ path = <<>>
(* Storage: addresses are drawn from a bounded pool, larger than the number of live blocks. *)
Pool == 1..(Cardinality(Objs) + 1)
(* In this model an array doubles when it grows and a grown array is at an unused address. *)
Unused(o) == CHOOSE p \in Pool : \A q \in Objs : addr[q] # p
Size == [o \in Objs |-> IF Len(seq'[o]) > cap[o] THEN 2 * Len(seq'[o]) ELSE cap[o]]
Place == [o \in Objs |-> IF Len(seq'[o]) > cap[o] THEN Unused(o) ELSE addr[o]]
Grown == cap' = Size /\ addr' = Place
Lists == {<<>>, <<1>>, <<1, 2>>}
Next ==
  \/ \E o \in Objs :
     \/ \E v \in Vals : Become(o, Append(seq[o], v)) /\ Grown /\ Push(o, v) /\ Op([op |-> "push", o |-> o, v |-> v])
     \/ \E i \in 0..Len(seq[o]), v \in Vals : Become(o, InsertRange(seq[o], i, <<v>>)) /\ Grown /\ Insert(o, i, <<v>>) /\ Op([op |-> "emplace", o |-> o, i |-> i, v |-> v])
     \/ \E i \in 0..Len(seq[o]), vals \in Lists : Become(o, InsertRange(seq[o], i, vals)) /\ Grown /\ Insert(o, i, vals) /\ Op([op |-> "insert", o |-> o, i |-> i, vals |-> vals, alt |-> i + Len(vals)])
     \/ Len(seq[o]) > 0 /\ Become(o, Front(seq[o])) /\ Grown /\ Pop(o) /\ Op([op |-> "pop", o |-> o])
     \/ \E i \in 0..(Len(seq[o]) - 1) : Become(o, EraseAt(seq[o], i)) /\ Grown /\ Erase(o, i) /\ Op([op |-> "erase", o |-> o, i |-> i])
     \/ \E n \in 0..MaxLen : Become(o, Resized(seq[o], n, 0)) /\ Grown /\ Resize(o, n, 0) /\ Op([op |-> "resize", o |-> o, n |-> n, alt |-> n])
     \/ \E n \in 0..MaxLen : Become(o, Resized(seq[o], n, 2)) /\ Grown /\ Resize(o, n, 2) /\ Op([op |-> "resizeDefault", o |-> o, n |-> n, v |-> 2])
     \/ \E n \in 0..MaxLen : UNCHANGED seq /\ cap' = [cap EXCEPT ![o] = IF n > @ THEN n ELSE @] /\ addr' = [addr EXCEPT ![o] = IF n > cap[o] THEN Unused(o) ELSE @]
                             /\ Reserve(o, n) /\ Op([op |-> "reserve", o |-> o, n |-> n])
     \/ Become(o, <<>>) /\ Grown /\ Clear(o) /\ Op([op |-> "clear", o |-> o])
     \/ Become(o, Fill(Len(seq[o]), 1)) /\ Grown /\ FillAll(o, 1) /\ Op([op |-> "fill", o |-> o, v |-> 1])
     \/ Become(o, <<>>) /\ cap' = [cap EXCEPT ![o] = 0] /\ addr' = [addr EXCEPT ![o] = 0] /\ Fresh(o, <<>>) /\ Op([op |-> "renew", o |-> o])
     \/ \E p \in Objs :
        \/ Become(o, seq[p]) /\ Grown /\ CopyAssign(o, p) /\ Op([op |-> "copyAssign", o |-> o, p |-> p])
        \/ /\ seq' = IF o = p THEN seq ELSE [seq EXCEPT ![o] = seq[p], ![p] = <<>>]
           /\ cap' = IF o = p THEN cap ELSE [cap EXCEPT ![o] = cap[p], ![p] = 0]
           /\ addr' = IF o = p THEN addr ELSE [addr EXCEPT ![o] = addr[p], ![p] = 0]
           /\ MoveAssign(o, p) /\ \E name \in {"moveAssign", "moveConstruct"} : Op([op |-> name, o |-> o, p |-> p])
        \/ Become(o, seq[p]) /\ cap' = [cap EXCEPT ![o] = Len(seq[p])] /\ addr' = [addr EXCEPT ![o] = IF seq[p] = <<>> THEN 0 ELSE Unused(o)]
           /\ CopyConstruct(o, p) /\ Op([op |-> "copyConstruct", o |-> o, p |-> p])
        \/ o < p /\ Swap(o, p) /\ Op([op |-> "swap", o |-> o, p |-> p])
Spec == Init /\ [][Next]_<<vars, path>>
Bound == (\A o \in Objs : Len(seq[o]) <= MaxLen) /\ Len(path) < MaxDepth
View == <<seq, cap>>
Emit == (\A o \in Objs : Len(seq'[o]) <= MaxLen) /\ PrintT("@" \o ToJson(path'))
NoSharing == \A o, p \in Objs : o # p /\ addr[o] # 0 => addr[o] # addr[p]
IsOp(names) == path' # path /\ path'[Len(path')].op \in names
Laws == \A o \in Objs : \A i \in 0..Len(seq[o]) : EraseAt(InsertRange(seq[o], i, <<7>>), i) = seq[o]
(* An operation on one object never changes another, except that a moved-from object is emptied. *)
OthersUntouched == [][path' # path => LET a == path'[Len(path')] IN \A q \in Objs : q # a.o /\ seq'[q] # seq[q] => a.op \in {"moveAssign", "moveConstruct", "swap"} /\ q = a.p]_<<vars, path>>
CapacityNeverLowered == [][IsOp({"reserve", "resize", "clear", "push", "insert", "pop", "erase", "copyAssign", "fill"}) => \A o \in Objs : cap'[o] >= cap[o]]_<<vars, path>>
=============================================================================
