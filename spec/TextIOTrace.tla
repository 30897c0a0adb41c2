----------------------------- MODULE TextIOTrace -----------------------------
EXTENDS TextIO, TraceIO
TraceInit == Init /\ l = 1
Of(e) == [dims |-> e.dims, vals |-> e.vals]
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event IN
     \/ e.op = "begin" /\ Begin(e.kind, e.depth)
     \/ e.op = "fill" /\ Fill(Of(e))
     \/ /\ e.op = "read" /\ Read(e.text, e.reported = 1)
        /\ IF e.reported = 1 THEN array' = <<>>
           ELSE /\ array' = Of(e)
                /\ Judged(kind, e.text) => Means(kind, depth, e.text, Of(e))
     \/ e.op = "print" /\ Shown(e.text, e.at)
     \/ e.op = "set" /\ Strip(e.text) = Listed(e.vals) /\ UNCHANGED vars
     \/ e.op = "c1" /\ Strip(e.text) = Listed(e.vals) /\ UNCHANGED vars
     \/ e.op = "c2" /\ Strip(e.text) = Render(e.dims, Numbers(e.vals)) /\ UNCHANGED vars
     \/ e.op = "rows" /\ Strip(e.text) = RowsText(e.rows) /\ UNCHANGED vars
     \/ e.op = "matrix" /\ Strip(e.text) = MatrixText(e.rows, e.entries) /\ UNCHANGED vars
     \/ e.op = "table" /\ Strip(e.text) = Table(e.rows, e.entries, e.offsets) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
