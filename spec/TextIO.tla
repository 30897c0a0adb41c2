-------------------------------- MODULE TextIO --------------------------------
(* Arrays as text. A text is a sequence of character codes. The language of well formed texts for an array of d     *)
(* dimensions is                                                                                                    *)
(*    L(0) = a value,    L(d) = "{" L(d-1) { "," L(d-1) } "}"    with all elements of the same extents,             *)
(* with blanks anywhere but inside a value, and "{}" for an empty array of any number of dimensions. The state is an *)
(* array: reading a well formed text makes it what the text describes, reading any other text is reported; printing  *)
(* gives a text that describes it.                                                                                   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES kind, depth, array          \* kind of the elements, number of dimensions, [dims, vals] (or [] after a report)
vars == <<kind, depth, array>>

Open == 123
Close == 125
Comma == 44
Space == 32
Plus == 43
Minus == 45
Point == 46
IsValue(c) == c \notin {Open, Close, Comma, Space}
IsDigit(c) == c \in 48..57
White(c) == c \in {Space, 10, 9, 13}

(* -- values ------------------------------------------------------------------------------------------------------ *)
AllDigits(v) == \A k \in 1..Len(v) : IsDigit(v[k])
Unsigned(v) == IF v # <<>> /\ v[1] \in {Plus, Minus} THEN Tail(v) ELSE v
Sign(v) == IF v # <<>> /\ v[1] = Minus THEN -1 ELSE 1
RECURSIVE Trim(_), Number(_)
Trim(v) == IF Len(v) > 1 /\ v[1] = 48 THEN Trim(Tail(v)) ELSE v
Number(v) == IF v = <<>> THEN 0 ELSE 10 * Number(SubSeq(v, 1, Len(v) - 1)) + v[Len(v)] - 48
IsInteger(v) == Unsigned(v) # <<>> /\ AllDigits(Unsigned(v))
Digits(v) == Trim(Unsigned(v))
(* 1000 times a decimal number *)
PointAt(v) == IF \E k \in 1..Len(v) : v[k] = Point THEN CHOOSE k \in 1..Len(v) : v[k] = Point /\ \A j \in 1..(k - 1) : v[j] # Point ELSE Len(v) + 1
Before(v) == SubSeq(v, 1, PointAt(v) - 1)
After(v) == SubSeq(v, PointAt(v) + 1, Len(v))
IsReal(v) == LET u == Unsigned(v) IN AllDigits(Before(u)) /\ AllDigits(After(u)) /\ Len(Before(u)) + Len(After(u)) > 0
Thousandths(v) == LET u == Unsigned(v) IN IF Len(Before(u)) > 6 THEN 0 ELSE Sign(v) * (1000 * Number(Before(u)) + Number(SubSeq(After(u) \o <<48, 48, 48>>, 1, 3)))

Valid(k, v) ==
  CASE k = "word" -> v # <<>>
    [] k = "real" -> IsReal(v)
    [] k = "int" -> IsInteger(v) /\ Len(Digits(v)) <= 9
    [] k = "short" -> IsInteger(v) /\ Len(Digits(v)) <= 5 /\ Sign(v) * Number(Digits(v)) \in -32768..32767
Value(k, v) == CASE k = "word" -> v [] k = "real" -> Thousandths(v) [] OTHER -> Sign(v) * Number(Digits(v))
(* Values this specification says nothing about: integers near the limits of 32 bits, many decimals, exponents.      *)
Vague(k, v) == \/ k = "int" /\ Len(Digits(v)) = 10
               \/ k = "real" /\ (Len(v) > 6 \/ Len(After(v)) > 3 \/ \E j \in 1..Len(v) : v[j] \in {69, 101})

(* -- the language ------------------------------------------------------------------------------------------------ *)
Strip(t) == SelectSeq(t, LAMBDA c : ~White(c))
(* two values with nothing but blanks between them *)
Torn(t) == \E i \in 1..Len(t) : \E k \in (i + 2)..Len(t) : IsValue(t[i]) /\ IsValue(t[k]) /\ \A j \in (i + 1)..(k - 1) : t[j] = Space
RECURSIVE RunEnd(_, _)
RunEnd(t, p) == IF p <= Len(t) /\ IsValue(t[p]) THEN RunEnd(t, p + 1) ELSE p
Bad == [ok |-> FALSE]
RECURSIVE Element(_, _, _, _), Elements(_, _, _, _, _)
Element(k, t, p, d) ==
  IF d = 0 THEN LET q == RunEnd(t, p)
                    v == SubSeq(t, p, q - 1)
                IN IF q > p /\ Valid(k, v) THEN [ok |-> TRUE, next |-> q, dims |-> <<>>, vals |-> <<Value(k, v)>>] ELSE Bad
  ELSE IF p > Len(t) \/ t[p] # Open THEN Bad
  ELSE Elements(k, t, p + 1, d, [n |-> 0, dims |-> <<>>, vals |-> <<>>])
Elements(k, t, p, d, got) ==
  LET r == Element(k, t, p, d - 1) IN
  IF ~r.ok THEN Bad
  ELSE IF got.n > 0 /\ got.dims # r.dims THEN Bad
  ELSE LET now == [n |-> got.n + 1, dims |-> r.dims, vals |-> got.vals \o r.vals] IN
       IF r.next > Len(t) THEN Bad
       ELSE IF t[r.next] = Comma THEN Elements(k, t, r.next + 1, d, now)
       ELSE IF t[r.next] = Close THEN [ok |-> TRUE, next |-> r.next + 1, dims |-> <<now.n>> \o now.dims, vals |-> now.vals]
       ELSE Bad
Empty(d) == [dims |-> [k \in 1..d |-> 0], vals |-> <<>>]
WellFormed(k, d, t) ==
  /\ ~Torn(t)
  /\ LET s == Strip(t) IN \/ s = <<Open, Close>>
                          \/ LET r == Element(k, s, 1, d) IN r.ok /\ r.next = Len(s) + 1
Meaning(k, d, t) ==
  LET s == Strip(t) IN IF s = <<Open, Close>> THEN Empty(d) ELSE LET r == Element(k, s, 1, d) IN [dims |-> r.dims, vals |-> r.vals]
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE s[1] * Product(Tail(s))
(* "{}" says that there are no elements, and says nothing about the other extents. *)
Means(k, d, t, a) == IF Strip(t) = <<Open, Close>> THEN a.vals = <<>> /\ Len(a.dims) = d /\ Product(a.dims) = 0 ELSE a = Meaning(k, d, t)
(* every value in the text is one this specification can judge *)
RECURSIVE Runs(_, _)
Runs(t, p) == IF p > Len(t) THEN {} ELSE IF IsValue(t[p]) THEN {SubSeq(t, p, RunEnd(t, p) - 1)} \cup Runs(t, RunEnd(t, p)) ELSE Runs(t, p + 1)
Judged(k, t) == /\ \A v \in Runs(Strip(t), 1) : ~Vague(k, v)
                /\ \A j \in 1..Len(t) : ~White(t[j]) \/ t[j] = Space

(* -- printing ---------------------------------------------------------------------------------------------------- *)
RECURSIVE Joined(_, _)
Joined(parts, sep) == IF parts = <<>> THEN <<>> ELSE IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o sep \o Joined(Tail(parts), sep)
RECURSIVE Render(_, _)
(* without blanks, of element texts *)
Render(dims, texts) ==
  IF dims = <<>> THEN texts[1]
  ELSE LET w == Product(Tail(dims)) IN
       <<Open>> \o Joined([i \in 1..dims[1] |-> Render(Tail(dims), SubSeq(texts, (i - 1) * w + 1, i * w))], <<Comma>>) \o <<Close>>
RECURSIVE Decimal(_)
Decimal(n) == IF n < 0 THEN <<Minus>> \o Decimal(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>

(* The part of an array that the first indices select. *)
RECURSIVE Part(_, _)
Part(a, at) == IF at = <<>> THEN a
               ELSE LET w == Product(Tail(a.dims)) IN Part([dims |-> Tail(a.dims), vals |-> SubSeq(a.vals, at[1] * w + 1, (at[1] + 1) * w)], Tail(at))
Describes(k, t, a) ==
  IF Product(a.dims) > 0 THEN WellFormed(k, Len(a.dims), t) /\ Meaning(k, Len(a.dims), t) = a
  ELSE Strip(t) = Render(a.dims, <<>>)

(* -- transitions ------------------------------------------------------------------------------------------------- *)
Init == kind = "int" /\ depth = 1 /\ array = Empty(1)
Begin(k, d) == kind' = k /\ depth' = d /\ array' = Empty(d)
Fill(a) == /\ Len(a.dims) = depth /\ Len(a.vals) = Product(a.dims)
           /\ array' = a /\ UNCHANGED <<kind, depth>>
Read(t, reported) ==
  /\ IF Judged(kind, t) THEN reported <=> ~WellFormed(kind, depth, t) ELSE TRUE
  /\ UNCHANGED <<kind, depth>>
Shown(t, at) == array # <<>> /\ Describes(kind, t, Part(array, at)) /\ UNCHANGED vars

(* -- the other containers ---------------------------------------------------------------------------------------- *)
Numbers(s) == [k \in 1..Len(s) |-> Decimal(s[k])]
Listed(s) == <<Open>> \o Joined(Numbers(s), <<Comma>>) \o <<Close>>
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(Tail(s))
RowText(s) == <<Open>> \o Cat([k \in 1..Len(s) |-> Decimal(s[k]) \o <<Comma>>]) \o <<Close>>
RowsText(rs) == <<Open>> \o Cat([i \in 1..Len(rs) |-> Decimal(i - 1) \o RowText(rs[i])]) \o <<Close>>
Row == <<114, 111, 119>>
Columns == <<99, 111, 108, 117, 109, 110, 115, 58>>
Values == <<118, 97, 108, 117, 101, 115, 58>>
MatrixText(rs, es) == <<Open>> \o Cat([i \in 1..Len(rs) |-> Row \o Decimal(i - 1) \o Columns \o Listed(rs[i]) \o Values \o Listed(es[i])]) \o <<Close>>
(* the table of print< POLICY >: number of rows, lengths, offsets, and a line per entry *)
Table(rs, es, offsets) ==
  <<110, 117, 109, 82, 111, 119, 115, 61>> \o Decimal(Len(rs)) \o <<110, 99, 111, 108, 115, 61>>
  \o RowText([i \in 1..Len(rs) |-> Len(rs[i])]) \o <<114, 111, 119, 95, 105, 110, 100, 101, 120, 101, 115, 61>> \o RowText(offsets)
  \o <<114, 111, 119, 99, 111, 108, 118, 97, 108, 117, 101, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45, 45>>
  \o Cat([i \in 1..Len(rs) |-> Decimal(Len(rs[i])) \o Cat([j \in 1..Len(rs[i]) |-> Decimal(i - 1) \o Decimal(rs[i][j]) \o Decimal(es[i][j])])])
=============================================================================
