------------------------------- MODULE FpEnv --------------------------------
(* Control of the floating-point environment: src/system.hpp (enable..., disable..., setFPE, the guard).             *)
EXTENDS Integers, FiniteSets, TLC

Exceptions == {"DIVBYZERO", "OVERFLOW", "INVALID", "UNDERFLOW", "INEXACT"}
Default == {"DIVBYZERO", "OVERFLOW", "INVALID"}

CONSTANT GuardIds

VARIABLES enabled,     \* the exceptions that trap
          guards,      \* the living guards: guard -> what was enabled when it was created
          flush,       \* subnormal numbers are flushed to zero
          rounding     \* the rounding direction, which nothing here changes

vars == <<enabled, guards, flush, rounding>>

Init == enabled = {} /\ guards = <<>> /\ flush = FALSE /\ rounding = 0

Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Enable(S) == enabled' = enabled \cup S /\ UNCHANGED <<guards, flush, rounding>>
Disable(S) == enabled' = enabled \ S /\ UNCHANGED <<guards, flush, rounding>>
NewGuard(g, S) == g \notin DOMAIN guards /\ guards' = (g :> enabled) @@ guards /\ enabled' = enabled \ S /\ UNCHANGED <<flush, rounding>>
EndGuard(g) == g \in DOMAIN guards /\ enabled' = enabled \cup guards[g] /\ guards' = Drop(guards, g) /\ UNCHANGED <<flush, rounding>>
SetFPE == enabled' = enabled \cup Default /\ flush' = TRUE /\ UNCHANGED <<guards, rounding>>
Round(r) == rounding' = r /\ UNCHANGED <<enabled, guards, flush>>

(* What each faulting operation raises. *)
Raised(f) ==
  CASE f = "divbyzero" -> {"DIVBYZERO"}
    [] f = "invalid" -> {"INVALID"}
    [] f = "overflow" -> {"OVERFLOW", "INEXACT"}
    [] f = "underflow" -> {"UNDERFLOW", "INEXACT"}
    [] f = "inexact" -> {"INEXACT"}
    [] f = "exact" -> {}
Faults == {"divbyzero", "invalid", "overflow", "underflow", "inexact", "exact"}
Trapping == {f \in Faults : Raised(f) \cap enabled # {}}

TypeOK == /\ enabled \subseteq Exceptions
          /\ DOMAIN guards \subseteq GuardIds
          /\ \A g \in DOMAIN guards : guards[g] \subseteq Exceptions
(* Without anything enabled nothing traps; a trap needs one of its own exceptions enabled. *)
TrapsExact == /\ enabled = {} => Trapping = {}
              /\ \A f \in Trapping : \E x \in Raised(f) : x \in enabled
(* The end of a guard brings back everything that was enabled when it was created. *)
GuardRestores == [][\A g \in DOMAIN guards : g \notin DOMAIN guards' => guards[g] \subseteq enabled' /\ enabled \subseteq enabled']_vars
OnlyFlushByFPE == [][flush => flush']_vars
=============================================================================
