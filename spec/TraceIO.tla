------------------------------ MODULE TraceIO ------------------------------
(* Reading a recorded trace (one JSON object per line, named by the environment variable TRACE) and accepting it:  *)
(* a trace specification consumes event number l in its l-th step, so the trace is a behaviour of the              *)
(* specification exactly when the longest behaviour consumes every event.                                          *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

VARIABLE l                     \* the next event to consume

Trace == ndJsonDeserialize(IOEnv.TRACE)

More == l <= Len(Trace)
Event == Trace[l]
Advance == l' = l + 1

Accepted ==
  IF TLCGet("stats").diameter - 1 = Len(Trace)
    THEN PrintT("ACCEPTED")
    ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE

Has(e, f) == f \in DOMAIN e
(* Which facts of the events a validation looks at: "contents", "capacity", "life", ... or "all".                     *)
Checks(f) == IOEnv.FACET \in {f, "all"}
(* An observation that is present must have the value the specification gives it. *)
Obs(e, f, v) == f \in DOMAIN e => e[f] = v
=============================================================================
