----------------------------- MODULE EigenTrace -----------------------------
EXTENDS Eigen, TraceIO
Ok(e) ==
  /\ e.inputs = 1 /\ e.around = 1
  /\ Len(e.m) = Size(e.n) /\ Len(e.lam) = e.n
  /\ Close(e.n, e.m, e)
  /\ IF Sane(e) THEN Solves(e.n, e.m, e.lam, e.vec, Slack(e.n, e.m, e.to, e.k)) ELSE FALSE
TraceInit == l = 1
TraceNext == More /\ Advance /\ (Event.op = "begin" \/ (Event.op = "eigen" /\ Ok(Event)))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
