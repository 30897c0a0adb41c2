------------------------------ MODULE IntConv ------------------------------
(* Integer conversion (src/limits.hpp). The state is the number of error-handler calls so far; a conversion either *)
(* returns the same mathematical integer, when the target type holds it, or calls the handler exactly once.        *)
EXTENDS Words, TLC

VARIABLE calls

Init == calls = 0

(* e: source bits/signedness sb, ss; target bits/signedness db, ds; value v; err; result r (<<>> after an error). *)
Convert(e) ==
  /\ Assert(Fits(e.v, e.sb, e.ss), "the driver must supply a value of the source type")
  /\ IF Fits(e.v, e.db, e.ds)
       THEN /\ ~e.err /\ e.r = e.v /\ calls' = calls
       ELSE /\ e.err /\ e.r = <<>> /\ calls' = calls + 1
  /\ e.calls = calls'
=============================================================================
