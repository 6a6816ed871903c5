------------------------------ MODULE BinvSpec ------------------------------
(* A binary vector is a finite sequence of bits, read little-endian.         *)
EXTENDS Common

(* --- denotation: which sequence do given arguments describe? ------------- *)
(* A description d has a kind and, depending on it,                          *)
(*   "list" "tuple" "array" "binv": d.bits      "str": d.chars (may be blank) *)
(*   "intval": d.n (bits of the number)         "exposet": d.set             *)
(* and optional lengths d.length, d.minimal (<<>> or <<number>>).            *)

Visible(chars) == SelectSeq(chars, LAMBDA c : c # " ")

OwnLength(d) ==
  CASE d.kind = "intval" -> Need(d.n)
    [] d.kind = "exposet" -> IF d.set = <<>> THEN 0 ELSE MaxOf(Ran(d.set)) + 1

Given(d) == d.kind \in {"list", "tuple", "array", "binv"}

FinalLength(d) ==
  IF d.length # <<>> THEN d.length[1]
  ELSE IF d.minimal # <<>> THEN Max2(d.minimal[1], OwnLength(d))
  ELSE OwnLength(d)

Admissible(d) ==
  CASE Given(d) -> Ran(d.bits) \subseteq {0, 1}
    [] d.kind = "str" -> Ran(Visible(d.chars)) \subseteq {"0", "1"}
    [] d.kind = "intval" -> d.length # <<>> => d.length[1] >= OwnLength(d)
    [] d.kind = "exposet" -> /\ \A x \in Ran(d.set) : x >= 0
                             /\ d.length # <<>> => d.length[1] >= OwnLength(d)
    [] d.kind = "malformed" -> FALSE      \* no source, several sources, a source of no usable type

Denoted(d) ==
  CASE Given(d) -> d.bits
    [] d.kind = "str" -> LET v == Visible(d.chars) IN [i \in 1 .. Len(v) |-> IF v[i] = "1" THEN 1 ELSE 0]
    [] d.kind = "intval" -> Pad(d.n, FinalLength(d))
    [] d.kind = "exposet" -> BitsOfSet(Ran(d.set), FinalLength(d))

(* --- views ---------------------------------------------------------------- *)

Changes(b) == Cardinality({i \in 2 .. Len(b) : b[i - 1] # b[i]})

PrettyLengths == {1, 2, 4, 8, 16, 32, 64}
\* groups of 4, separated by a space, by two spaces after every 16
RECURSIVE PrettyFrom(_, _)
PrettyFrom(b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE <<Digit[b[i] + 1]>>
       \o (IF i = Len(b) THEN <<>> ELSE IF i % 16 = 0 THEN <<" ", " ">> ELSE IF i % 4 = 0 THEN <<" ">> ELSE <<>>)
       \o PrettyFrom(b, i + 1)
Pretty(b) == PrettyFrom(b, 1)

\* the partition of the naturals induced by the two sides
SideBlocks(b) == BlocksOf({Ones(b), Below(Len(b)) \ Ones(b)})

HeadShort == <<"B", "i", "n", "v", "(">>
HeadLong == HeadShort \o <<"e", "x", "p", "o", "s", "e", "t", "=">>
Printed(b) ==
  IF Len(b) <= 16 THEN HeadShort \o <<"'">> \o CharsBits(b) \o <<"'", ")">>
  ELSE LET flip == 2 * Weight(b) > Len(b)
           S == IF flip THEN Below(Len(b)) \ Ones(b) ELSE Ones(b)
       IN  (IF flip THEN <<"~">> ELSE <<>>) \o HeadLong \o CharsList(Asc(S))
           \o <<",", " ", "l", "e", "n", "g", "t", "h", "=">> \o CharsNat(Len(b)) \o <<")">>

(* --- operators ------------------------------------------------------------ *)

Flip(b, i) == [b EXCEPT ![i + 1] = 1 - @]
BitwiseSmaller(a, b) == a # b /\ \A i \in 1 .. Len(a) : a[i] <= b[i]
=============================================================================
