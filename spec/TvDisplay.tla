----------------------------- MODULE TvDisplay -----------------------------
(* The debugger display (src/totalview/tv_data_display.c): a buffer of Cap characters that holds a 0-terminated    *)
(* text, and an activation state. A display session is opened by the debugger ("pre"), rows are added, and it is   *)
(* closed ("post"). The first row of a session starts the text afresh.                                              *)
EXTENDS Words, TLC

CONSTANT Cap

VARIABLES mode,          \* "inactive", "first" or "append"
          used           \* length of the text in the buffer

vars == <<mode, used>>

TAB == 9
NL == 10

Ok == 0  NotActive == 1  InvalidCharacters == 2  Exhausted == 3

HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE HexBody(_)
HexBody(w) == LET qr == DivMod(w, 16)
                  d == <<HexDigit(qr.r)>>
              IN IF qr.q = Zero THEN d ELSE HexBody(qr.q) \o d
Hex(w) == <<48, 120>> \o HexBody(w)

RowText(name, type, addr) == name \o <<TAB>> \o type \o <<TAB>> \o Hex(addr) \o <<NL>>
Legal(s) == \A i \in DOMAIN s : s[i] \notin {TAB, NL}

Init == mode = "inactive" /\ used = 0

Pre == mode' = "first" /\ used' = used
Post == mode' = "inactive" /\ used' = used

(* Adding a row of rowLen characters: the return code, and the length of the text before it. *)
Code(legal, rowLen, start) ==
  IF mode = "inactive" THEN NotActive
  ELSE IF ~legal THEN InvalidCharacters
  ELSE IF start + rowLen + 1 > Cap THEN Exhausted
  ELSE Ok
Start == IF mode = "first" THEN 0 ELSE used

AddRow(legal, rowLen) ==
  LET code == Code(legal, rowLen, Start) IN
  /\ mode' = IF code \in {Ok, Exhausted} THEN "append" ELSE mode
  /\ used' = CASE code = Ok -> Start + rowLen
               [] code = Exhausted -> Start
               [] OTHER -> used

NeverOverrun == used < Cap
TypeOK == mode \in {"inactive", "first", "append"} /\ used \in Nat
=============================================================================
