----------------------------- MODULE ErrMacros ------------------------------
(* The error, throw, warning, info and assertion macros (src/Macros.hpp) and the error handler (src/system.cpp).    *)
EXTENDS Integers, Sequences, TLC

CONSTANT Handlers          \* 1..n; 0 means none was installed

VARIABLES handler,         \* the handler in force
          calls,           \* how often each handler was called
          alive            \* the process has not been aborted

vars == <<handler, calls, alive>>

Init == handler = 0 /\ calls = [h \in Handlers |-> 0] /\ alive = TRUE

Holds(rel, a, b) ==
  CASE rel = "EQ" -> a = b [] rel = "NE" -> a # b
    [] rel = "GT" -> a > b [] rel = "GE" -> a >= b
    [] rel = "LT" -> a < b [] rel = "LE" -> a <= b
    [] rel = "IF" -> a > b
    [] rel = "ALWAYS" -> TRUE

Symbol(rel) ==
  CASE rel = "EQ" -> "==" [] rel = "NE" -> "!=" [] rel \in {"GT", "IF"} -> ">" [] rel = "GE" -> ">=" [] rel = "LT" -> "<" [] rel = "LE" -> "<="

(* Does the macro act? Assertions act when their condition fails, and only in debug builds. *)
Fires(kind, rel, a, b, debug) ==
  IF kind = "ASSERT" THEN debug /\ ~Holds(rel, a, b) ELSE Holds(rel, a, b)
Evaluated(kind, rel, debug) == rel # "ALWAYS" /\ (kind = "ASSERT" => debug)

How(kind, fires) ==
  IF ~fires THEN "none"
  ELSE IF kind \in {"ERROR", "ASSERT"} THEN (IF handler = 0 THEN "abort" ELSE "handler")
  ELSE IF kind = "THROW" THEN "throw"
  ELSE "printed"

CallHandler == /\ calls' = IF handler = 0 THEN calls ELSE [calls EXCEPT ![handler] = @ + 1]
               /\ alive' = (handler # 0)
               /\ handler' = handler

Install(h) == alive /\ handler' = h /\ UNCHANGED <<calls, alive>>
(* A null handler is refused: an error is raised with the handler in force, which stays. *)
InstallNull == alive /\ CallHandler
Use(kind, rel, a, b, debug) ==
  /\ alive
  /\ IF How(kind, Fires(kind, rel, a, b, debug)) \in {"abort", "handler"} THEN CallHandler ELSE UNCHANGED vars
(* system::callErrorHandler() itself *)
Call == alive /\ CallHandler

TypeOK == handler \in Handlers \cup {0} /\ calls \in [Handlers -> Nat] /\ alive \in BOOLEAN
DeadOnlyWithoutHandler == ~alive => handler = 0
=============================================================================
