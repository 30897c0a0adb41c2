----------------------------- MODULE FpEnvTrace -----------------------------
EXTENDS FpEnv, TraceIO, SequencesExt
S(e) == ToSet(e.s)
(* After every operation: what is enabled according to the C library, which faulting operations trap (in every       *)
(* precision), whether subnormal results survive, and the rounding direction.                                        *)
After(e) ==
  /\ ToSet(e.on) = enabled'
  /\ \A p \in DOMAIN e.traps : ToSet(e.traps[p]) = Trapping' \cap (IF p = "longdouble" THEN Faults \ {"underflow"} ELSE Faults)
  /\ flush' => ~e.subnormal
  /\ (~flush' /\ "UNDERFLOW" \notin enabled') => e.subnormal
  /\ e.round = rounding'
TraceInit == Init /\ l = 1
TraceNext ==
  /\ More /\ Advance
  /\ \/ Event.op = "begin" /\ enabled' = {} /\ guards' = <<>> /\ flush' = FALSE /\ rounding' = 0
     \/ Event.op = "enable" /\ Enable(S(Event)) /\ ToSet(Event.ret) = enabled /\ After(Event)
     \/ Event.op = "enableDefault" /\ Enable(Default) /\ ToSet(Event.ret) = enabled /\ After(Event)
     \/ Event.op = "disable" /\ Disable(S(Event)) /\ ToSet(Event.ret) = enabled /\ After(Event)
     \/ Event.op = "disableDefault" /\ Disable(Default) /\ ToSet(Event.ret) = enabled /\ After(Event)
     \/ Event.op = "guard" /\ NewGuard(Event.g, S(Event)) /\ After(Event)
     \/ Event.op = "guardDefault" /\ NewGuard(Event.g, Default) /\ After(Event)
     \/ Event.op = "unguard" /\ EndGuard(Event.g) /\ After(Event)
     \/ Event.op = "setFPE" /\ SetFPE /\ After(Event)
     \/ Event.op = "round" /\ Round(Event.r) /\ After(Event)
     \/ Event.op = "default" /\ ToSet(Event.ret) = Default /\ UNCHANGED vars /\ After(Event)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
