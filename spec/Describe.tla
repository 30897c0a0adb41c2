------------------------------ MODULE Describe ------------------------------
(* Human-readable descriptions (src/system.cpp calculateSize and demangle, src/totalview/tv_helpers.hpp format):   *)
(* what each text must be, as a sequence of character codes. These are functions, the state is only the number of  *)
(* descriptions asked for.                                                                                          *)
EXTENDS Words, TLC

VARIABLE asked
Init == asked = 0
Ask == asked' = asked + 1

Digits(ds) == [i \in DOMAIN ds |-> 48 + ds[i]]
DecText(w) == Digits(Decimal(w))
NatText(n) == DecText(<<0, 0, n \div Base, n % Base>>)
IntText(n) == IF n < 0 THEN <<45>> \o NatText(-n) ELSE NatText(n)

---------------------------------------------------------------------------
(* Sizes. With bytes = q * 2^s + rem the value in the unit is q + rem / 2^s; tenth and frac below are the integer   *)
(* and the fractional part of 10 * rem / 2^s, in units of 2^-s (frac as two halves of s / 2 bits each).             *)
Shift(b) == IF Leq(Pow2(30), b) THEN 30 ELSE IF Leq(Pow2(20), b) THEN 20 ELSE 10
Unit(s) == CASE s = 30 -> <<71, 66>> [] s = 20 -> <<77, 66>> [] OTHER -> <<75, 66>>    \* GB MB KB

RECURSIVE ShiftRight(_, _)
ShiftRight(w, n) == IF n = 0 THEN w ELSE LET k == IF n > 10 THEN 10 ELSE n IN ShiftRight(DivMod(w, P2(k)).q, n - k)

Remainder(b, s) ==   \* b mod 2^s, below 2^30
  IF s = 10 THEN b[4] % 1024
  ELSE IF s = 20 THEN (b[3] % 16) * Base + b[4]
  ELSE (b[3] % 16384) * Base + b[4]

SizeText(q, tenth, s) == DecText(q) \o <<46, 48 + tenth, 32>> \o Unit(s)
Increment(w) == AddW(w, <<0, 0, 0, 1>>)

SizeTexts(b) ==
  LET s == Shift(b)
      h == s \div 2
      q == ShiftRight(b, s)
      rem == Remainder(b, s)
      hi == rem \div P2(h)
      lo == rem % P2(h)
      x == 10 * hi + (10 * lo) \div P2(h)       \* 10 * rem div 2^h
      y == (10 * lo) % P2(h)
      tenth == x \div P2(h)
      fhi == x % P2(h)                          \* the fraction is (fhi * 2^h + y) / 2^s
      half == P2(h - 1)
      below == fhi < half
      tie == fhi = half /\ y = 0
      \* a byte count beyond 2^53 is not exactly a double: next to a tie either neighbour may be printed
      near == Leq(Pow2(53), b) /\ fhi \in {half - 1, half}
      down == SizeText(q, tenth, s)
      up == IF tenth = 9 THEN SizeText(Increment(q), 0, s) ELSE SizeText(q, tenth + 1, s)
  IN (IF below \/ tie \/ near THEN {down} ELSE {}) \cup (IF ~below \/ near THEN {up} ELSE {})

---------------------------------------------------------------------------
(* Demangling, for the part of the Itanium grammar the library's own types are made of. A name outside it comes     *)
(* back as it is. A parse is [ok, text, next] where next is the first character not consumed.                        *)
Fail == [ok |-> FALSE, text |-> <<>>, next |-> 0]
Txt(s, n) == [ok |-> TRUE, text |-> s, next |-> n]
IsDigit(c) == c >= 48 /\ c <= 57

T_void == <<118,111,105,100>>
T_bool == <<98,111,111,108>>
T_char == <<99,104,97,114>>
T_schar == <<115,105,103,110,101,100,32,99,104,97,114>>
T_unsigned == <<117,110,115,105,103,110,101,100>>
T_short == <<115,104,111,114,116>>
T_int == <<105,110,116>>
T_long == <<108,111,110,103>>
T_longlong == <<108,111,110,103,32,108,111,110,103>>
T_float == <<102,108,111,97,116>>
T_double == <<100,111,117,98,108,101>>
T_const == <<32,99,111,110,115,116>>
Uns(t) == T_unsigned \o <<32>> \o t

Builtin(c) ==
  CASE c = 118 -> T_void [] c = 98 -> T_bool [] c = 99 -> T_char [] c = 97 -> T_schar [] c = 104 -> Uns(T_char)
    [] c = 115 -> T_short [] c = 116 -> Uns(T_short) [] c = 105 -> T_int [] c = 106 -> T_unsigned \o <<32>> \o T_int
    [] c = 108 -> T_long [] c = 109 -> Uns(T_long) [] c = 120 -> T_longlong [] c = 121 -> Uns(T_longlong)
    [] c = 102 -> T_float [] c = 100 -> T_double [] c = 101 -> T_long \o <<32>> \o T_double
    [] OTHER -> <<>>

RECURSIVE Num(_, _, _)
Num(s, i, acc) == IF i <= Len(s) /\ IsDigit(s[i]) THEN Num(s, i + 1, 10 * acc + s[i] - 48) ELSE [n |-> acc, next |-> i]

RECURSIVE Type(_, _)
SourceName(s, i) ==
  IF i > Len(s) \/ ~IsDigit(s[i]) \/ s[i] = 48 THEN Fail
  ELSE LET k == Num(s, i, 0) IN
       IF k.next + k.n - 1 > Len(s) THEN Fail ELSE Txt(SubSeq(s, k.next, k.next + k.n - 1), k.next + k.n)
RECURSIVE Nested(_, _)
Nested(s, i) ==
  LET a == SourceName(s, i) IN
  IF ~a.ok THEN Fail
  ELSE IF a.next <= Len(s) /\ s[a.next] = 69 THEN Txt(a.text, a.next + 1)      \* E
  ELSE LET b == Nested(s, a.next) IN IF b.ok THEN Txt(a.text \o <<58, 58>> \o b.text, b.next) ELSE Fail
Type(s, i) ==
  IF i > Len(s) THEN Fail
  ELSE IF Builtin(s[i]) # <<>> THEN Txt(Builtin(s[i]), i + 1)
  ELSE IF s[i] = 80 THEN LET t == Type(s, i + 1) IN IF t.ok THEN Txt(t.text \o <<42>>, t.next) ELSE Fail       \* P
  ELSE IF s[i] = 75 THEN LET t == Type(s, i + 1) IN IF t.ok THEN Txt(t.text \o T_const, t.next) ELSE Fail      \* K
  ELSE IF s[i] = 78 THEN Nested(s, i + 1)                                                                    \* N
  ELSE SourceName(s, i)

(* A mangled name is a whole type, or (with _Z) a whole name. *)
Demangled(s) ==
  IF Len(s) >= 2 /\ s[1] = 95 /\ s[2] = 90
    THEN LET n == IF Len(s) >= 3 /\ s[3] = 78 THEN Nested(s, 4) ELSE SourceName(s, 3) IN
         IF n.ok /\ n.next = Len(s) + 1 THEN n.text ELSE s
  ELSE LET t == Type(s, 1) IN IF t.ok /\ t.next = Len(s) + 1 THEN t.text ELSE s

---------------------------------------------------------------------------
RECURSIVE Extents(_)
Extents(dims) == IF dims = <<>> THEN <<>> ELSE <<91>> \o IntText(Head(dims)) \o <<93>> \o Extents(Tail(dims))

Size(e) == Ask /\ e.r \in SizeTexts(e.b)
Demangle(e) == Ask /\ e.r = (IF e.isnull THEN <<>> ELSE Demangled(e.name))
Format(e) == Ask /\ e.r = Demangled(e.name) \o Extents(e.dims)

(* What an Array, an ArrayView or an ArraySlice shows in the debugger (TV_ttf_display_type): nothing unless a       *)
(* display is under way; otherwise rows under different names, in any order, which say where the dimensions and the *)
(* strides are and how many there are, where the buffer is and of what type it is, where the index of the dimension *)
(* resized by resize( n ) is, and, for a slice, where the values are, once with every extent. A row of the values   *)
(* never promises more of them than there are.                                                                       *)
Show(e) ==
  LET rows == e.rows
      n == Len(e.dims)
      index == Demangled(e.iname) \o Extents(<<n>>)
      At(a) == {i \in DOMAIN rows : rows[i].addr = a}
      Row(a, t) == \E i \in At(a) : rows[i].type = t
      value == Demangled(e.name)
  IN Ask /\ IF ~e.active THEN rows = <<>>
            ELSE /\ \A i, j \in DOMAIN rows : rows[i].name = rows[j].name => i = j
                 /\ Row(e.dimsAt, index) /\ Row(e.stridesAt, index)
                 /\ CASE e.kind = "slice" ->
                           /\ Row(e.dataAt, value \o Extents(e.dims))
                           /\ \A i \in At(e.dataAt) \ (At(e.dimsAt) \cup At(e.stridesAt)) :
                                \E k \in 0 .. n : rows[i].type = value \o Extents(SubSeq(e.dims, 1, k))
                      [] OTHER ->
                           /\ Row(e.bufferAt, e.buffer)
                           /\ \E i \in DOMAIN rows : rows[i].type = <<105, 110, 116>> /\ rows[i].inside /\ rows[i].v = e.index
=============================================================================
