--------------------------- MODULE RawRangeTrace ----------------------------
EXTENDS RawRange, TraceIO
After(e) ==
  /\ Checks("contents") => e.out = s' /\ e.outside
  /\ Checks("life") => Obs(e, "live", Len(s')) /\ Obs(e, "bad", 0)
Returns(e, v) == Checks("contents") => e.ret = v
TraceInit == s = <<>> /\ l = 1
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event IN
     \/ e.op = "begin" /\ s' = <<>>
     \/ e.op = "gone" /\ s' = <<>> /\ (Checks("life") => Obs(e, "live", 0) /\ Obs(e, "bad", 0) /\ Obs(e, "mem", 0))
     \/ e.op \in {"assign", "moveInto"} /\ Assign(e.vals) /\ After(e)
     \/ e.op = "resize" /\ Resize(e.n, 0) /\ After(e)
     \/ e.op = "resizeTo" /\ Resize(e.n, e.v) /\ After(e)
     \/ e.op \in {"shiftUp", "ushiftUp", "insert"} /\ Insert(e.i, e.vals) /\ After(e)
     \/ e.op = "emplace" /\ Insert(e.i, <<e.v>>) /\ After(e)
     \/ e.op \in {"shiftDown", "ushiftDown", "erase"} /\ Erase(e.i, e.n) /\ After(e)
     \/ e.op = "erase1" /\ Erase(e.i, 1) /\ After(e)
     \/ e.op = "push" /\ Push(e.v) /\ After(e)
     \/ e.op = "append" /\ Insert(Len(s), e.vals) /\ Returns(e, Len(e.vals)) /\ After(e)
     \/ e.op = "pop" /\ Pop /\ After(e)
     \/ e.op = "distance" /\ Look /\ Returns(e, Len(e.vals)) /\ e.same /\ After(e)
     \/ e.op = "positive" /\ Look /\ Returns(e, e.v >= 0) /\ e.uns /\ After(e)
     \/ e.op = "find" /\ Look /\ Returns(e, Find(e.v, e.desc)) /\ After(e)
     \/ e.op = "contains" /\ Look /\ Returns(e, Member(e.v)) /\ After(e)
     \/ e.op = "setInsert" /\ SetInsert(<<e.v>>) /\ Returns(e, ~Member(e.v)) /\ After(e) /\ (Checks("contents") => ReproducesInsert(e.cb, <<e.v>>))
     \/ e.op = "setInsertMany" /\ SetInsert(e.vals) /\ Returns(e, Len(s') - Len(s)) /\ After(e) /\ (Checks("contents") => ReproducesInsert(e.cb, e.vals))
     \/ e.op = "setInsertPlain" /\ SetInsert(e.vals) /\ Returns(e, Len(s') - Len(s)) /\ After(e)
     \/ e.op = "setRemove" /\ SetRemove(<<e.v>>) /\ Returns(e, Member(e.v)) /\ After(e) /\ (Checks("contents") => ReproducesRemove(e.cb))
     \/ e.op = "setRemoveMany" /\ SetRemove(e.vals) /\ Returns(e, Len(s) - Len(s')) /\ After(e) /\ (Checks("contents") => ReproducesRemove(e.cb))
TraceSpec == TraceInit /\ [][TraceNext]_<<s, l>>
=============================================================================
