------------------------------ MODULE Signals -------------------------------
(* Installing and undoing signal handling, and the stack-trace handler (src/system.cpp).                             *)
EXTENDS Integers, Sequences, TLC

(* Signals by number (Linux); the listed ones are those setSignalHandling covers.                                    *)
Name == (1 :> "Hangup") @@ (2 :> "Interrupt") @@ (3 :> "Quit") @@ (4 :> "Illegal instruction") @@ (5 :> "Trace/breakpoint trap")
        @@ (6 :> "Aborted") @@ (29 :> "I/O possible") @@ (8 :> "Floating point exception") @@ (7 :> "Bus error")
        @@ (11 :> "Segmentation fault") @@ (31 :> "Bad system call") @@ (13 :> "Broken pipe") @@ (15 :> "Terminated")
        @@ (9 :> "Killed") @@ (10 :> "User defined signal 1") @@ (14 :> "Alarm clock") @@ (23 :> "Urgent I/O condition") @@ (28 :> "Window changed")
CONSTANTS Listed, Other
Sigs == Listed \cup Other

(* Dispositions: 0 default, 1 ignored, 2.. functions. Tracer is the function that calls stackTraceHandler and exits. *)
CONSTANT Disps
Default == 0
Ignored == 1
Tracer == 6

VARIABLES disp,        \* signal -> disposition in force
          first,       \* listed signal -> disposition before the first installation; <<>> when nothing is installed
          errh         \* an error handler has been set

vars == <<disp, first, errh>>

Init == disp = [s \in Sigs |-> Default] /\ first = <<>> /\ errh = FALSE

User(s, d) == disp' = [disp EXCEPT ![s] = d] /\ UNCHANGED <<first, errh>>
SetHandlers(h) ==
  /\ disp' = [s \in Sigs |-> IF s \in Listed THEN h ELSE disp[s]]
  /\ first' = IF first = <<>> THEN [s \in Listed |-> disp[s]] ELSE first
Install(h) == SetHandlers(h) /\ UNCHANGED errh
(* A reset ends the installation: the next one is a new first one. *)
Reset == /\ disp' = IF first = <<>> THEN disp ELSE [s \in Sigs |-> IF s \in Listed THEN first[s] ELSE disp[s]]
         /\ first' = <<>>
         /\ UNCHANGED errh
ErrorHandler == errh' = TRUE /\ UNCHANGED <<disp, first>>
(* A direct call. On the way out all listed signals get the default disposition, so that nothing recurses. *)
StackTrace(exit) == IF exit THEN errh /\ SetHandlers(Default) /\ UNCHANGED errh ELSE UNCHANGED vars
(* What raising s does, in a copy of the process. *)
Effect(s) ==
  CASE disp[s] = Ignored \/ (disp[s] = Default /\ s \in {23, 28}) -> [died |-> 0, ran |-> <<>>, calls |-> 0]
    [] disp[s] = Default /\ s \notin {23, 28} -> [died |-> s, ran |-> <<>>, calls |-> 0]
    [] disp[s] = Tracer -> [died |-> IF errh THEN 0 ELSE 6, ran |-> <<>>, calls |-> IF errh THEN 1 ELSE 0]
    [] OTHER -> [died |-> 0, ran |-> <<disp[s], s>>, calls |-> 0]
Raise(s) == UNCHANGED vars

TypeOK == disp \in [Sigs -> Disps] /\ (first = <<>> \/ first \in [Listed -> Disps])
=============================================================================
