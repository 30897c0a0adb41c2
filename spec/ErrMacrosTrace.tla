--------------------------- MODULE ErrMacrosTrace ---------------------------
EXTENDS ErrMacros, TraceIO

Among(lines, x) == \E i \in DOMAIN lines : lines[i] = x

(* What is printed (or is the text of the exception): banner, location, controlling expression, message, and, for   *)
(* the comparing macros, both operands.                                                                              *)
Location(e) == "***** LOCATION: " \o e.file \o ":" \o ToString(e.line)
Condition(e) == IF e.rel = "ALWAYS" THEN "true"
                ELSE IF e.kind = "ASSERT" THEN "!(" \o e.lhs \o " " \o Symbol(e.rel) \o " " \o e.rhs \o ")"
                ELSE e.lhs \o " " \o Symbol(e.rel) \o " " \o e.rhs
Operands(e, lines) == e.rel \notin {"IF", "ALWAYS"} =>
  /\ Among(lines, "  " \o e.lhs \o " = " \o ToString(e.a))
  /\ Among(lines, "  " \o e.rhs \o " = " \o ToString(e.b))
Banner(kind) == CASE kind \in {"ERROR", "ASSERT"} -> "***** ERROR" [] kind = "WARNING" -> "***** WARNING" [] kind = "INFO" -> "***** INFO"
Prefix(kind) == IF kind = "INFO" THEN "***** Controlling expression: " ELSE "***** Controlling expression (should be false): "
Described(e, lines) ==
  /\ Among(lines, Location(e))
  /\ Among(lines, Prefix(e.kind) \o Condition(e))
  /\ e.msg # "" => Among(lines, e.msg)
  /\ Operands(e, lines)

Macro(e) ==
  LET fires == Fires(e.kind, e.rel, e.a, e.b, e.debug)
      how == How(e.kind, fires)
  IN /\ Use(e.kind, e.rel, e.a, e.b, e.debug)
     /\ e.how = how
     /\ e.calls = calls'
     /\ IF Evaluated(e.kind, e.rel, e.debug)
          THEN IF fires THEN e.evA >= 1 /\ e.evB >= 1 ELSE e.evA = 1 /\ e.evB = 1
          ELSE e.evA = 0 /\ e.evB = 0
     /\ (e.rel = "IF" /\ Evaluated(e.kind, e.rel, e.debug)) => e.evA = 1 /\ e.evB = 1
     /\ CASE how = "none" -> e.out = <<>> /\ e.what = <<>>
          [] how \in {"abort", "handler"} -> e.what = <<>> /\ e.out[1] = Banner(e.kind) /\ Described(e, e.out) /\ (how = "handler" => e.before)
          [] how = "printed" -> e.what = <<>> /\ e.out[1] = Banner(e.kind) /\ Described(e, e.out)
          [] how = "throw" -> e.out = <<>> /\ Described(e, e.what) /\ e.caught = e.type

Set(e) == Install(e.h) /\ e.how = "none" /\ e.calls = calls' /\ e.out = <<>>
SetNull(e) == InstallNull /\ e.how = (IF handler = 0 THEN "abort" ELSE "handler") /\ e.calls = calls' /\ e.out # <<>>
Direct(e) == Call /\ e.how = (IF handler = 0 THEN "abort" ELSE "handler") /\ e.calls = calls' /\ e.out = <<>>
LogLine(e) == alive /\ UNCHANGED vars /\ e.how = "none" /\ e.calls = calls /\ e.evA = 1
              /\ e.out = IF e.var THEN <<e.lhs \o " = " \o ToString(e.a)>> ELSE <<"a " \o ToString(e.a) \o " z">>

TraceInit == Init /\ l = 1
TraceNext ==
  /\ More /\ Advance
  /\ \/ Event.op = "begin" /\ handler' = 0 /\ calls' = [h \in Handlers |-> 0] /\ alive' = TRUE
     \/ Event.op = "set" /\ Set(Event)
     \/ Event.op = "setnull" /\ SetNull(Event)
     \/ Event.op = "call" /\ Direct(Event)
     \/ Event.op = "macro" /\ Macro(Event)
     \/ Event.op = "log" /\ LogLine(Event)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
