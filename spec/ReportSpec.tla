----------------------------- MODULE ReportSpec -----------------------------
(* Reports about Boolean functions: a row of a catalogue, the table of a clan, *)
(* the choice of a representative by layers, numbers lined up by their signs.  *)
EXTENDS ClassSpec
Diagram == INSTANCE SplitSpec

\* the bits of numbers beyond the integers of TLC
RECURSIVE TenTo(_)
TenTo(k) == IF k = 0 THEN <<1>> ELSE MulBits(<<0, 1, 0, 1>>, TenTo(k - 1))
Ten15 == TLCEval(TenTo(15))
Ten20 == TLCEval(TenTo(20))
Ten30 == TLCEval(TenTo(30))
\* 0 for numbers with up to 15 digits, 1 for up to 30, 2 beyond
SizeClass(z) == IF BitsLess(z, Ten15) THEN 0 ELSE IF BitsLess(z, Ten30) THEN 1 ELSE 2

\* whole part of half a number, difference of numbers (the first not smaller), greatest common divisor
HalfOf(a) == IF a = <<>> THEN <<>> ELSE Tail(a)
RECURSIVE SubC(_, _, _)
SubC(a, b, c) ==
  IF a = <<>> THEN <<>>
  ELSE LET d == Head(a) - (IF b = <<>> THEN 0 ELSE Head(b)) - c
       IN  <<IF d < 0 THEN d + 2 ELSE d>> \o SubC(Tail(a), IF b = <<>> THEN b ELSE Tail(b), IF d < 0 THEN 1 ELSE 0)
SubBits(a, b) == Canon(SubC(a, b, 0))
Gap(a, b) == IF BitsLess(a, b) THEN SubBits(b, a) ELSE SubBits(a, b)
IsEven(a) == a = <<>> \/ a[1] = 0
\* for an odd second number
RECURSIVE GcdOdd(_, _)
GcdOdd(a, b) ==
  IF a = <<>> THEN b
  ELSE IF IsEven(a) THEN GcdOdd(Tail(a), b)
  ELSE IF BitsLess(a, b) THEN GcdOdd(SubBits(b, a), a)
  ELSE GcdOdd(SubBits(a, b), b)

(* --- row of a catalogue ------------------------------------------------------- *)

\* the table read as binary digits after the point, repeated for ever: numerator and denominator, not reduced
ValueNum(f) == Canon(Rev(f.tt))
ValueDen(f) == Repeat(1, Len(f.tt))
Compare(a, b) == IF BitsLess(a, b) THEN -1 ELSE IF a = b THEN 0 ELSE 1
SameRatio(p, q, r, s) == MulBits(p, s) = MulBits(r, q)

(* --- table of a clan ------------------------------------------------------------ *)

KeyMaskOf(s) == Num([i \in 1 .. Len(s) |-> IF s[i] < 0 THEN 1 ELSE 0])
\* by weight, then by value
RECURSIVE ByWeight(_)
ByWeight(S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : LexLess(<<Weigh(x), x>>, <<Weigh(y), y>>) \/ x = y IN <<m>> \o ByWeight(S \ {m})
Weights(S) == {Weigh(x) : x \in S}
\* the places where the weight changes
Borders(s) == [i \in 1 .. Len(s) |-> i > 1 /\ Weigh(s[i]) # Weigh(s[i - 1])]

(* --- representative by layers ------------------------------------------------------ *)

LayerWeights(t) == LET l == Layered(t) IN [i \in 1 .. Len(l) |-> Weight(l[i])]
\* sort keys of tables of the same length: weights of the layers, then the layers, then the table
VeroKey(t) == LayerWeights(t) \o Flat(Layered(t)) \o t
FalsoKey(t) == Rev(LayerWeights(t)) \o Flat(Rev([i \in 1 .. Len(Layered(t)) |-> Rev(Layered(t)[i])])) \o t
SwanKey(t, vero) == IF vero THEN VeroKey(t) ELSE FalsoKey(t)
RECURSIVE SortedTables(_, _)
SortedTables(S, vero) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ LexLess(SwanKey(x, vero), SwanKey(y, vero)) IN <<m>> \o SortedTables(S \ {m}, vero)
Swan(S, vero) == LET s == SortedTables(S, vero) IN IF vero THEN s[Len(s)] ELSE s[1]

(* --- numbers lined up ---------------------------------------------------------------- *)

Figures == Ran(Digit)
\* truth values become single signs, here written as "TRUE" and "FALSE"
RECURSIVE Signed(_)
Signed(s) ==
  IF Len(s) < 4 THEN s
  ELSE IF SubSeq(s, 1, 4) = <<"T", "r", "u", "e">> THEN <<"TRUE">> \o Signed(SubSeq(s, 5, Len(s)))
  ELSE IF SubSeq(s, 1, Min2(5, Len(s))) = <<"F", "a", "l", "s", "e">> THEN <<"FALSE">> \o Signed(SubSeq(s, 6, Len(s)))
  ELSE <<s[1]>> \o Signed(Tail(s))
\* a blank before each number without sign
Spaced(s) ==
  Flat([i \in 1 .. Len(s) |->
    IF s[i] \in Figures /\ (i = 1 \/ (s[i - 1] \notin Figures /\ s[i - 1] # "-")) THEN <<" ", s[i]>> ELSE <<s[i]>>])
LineUp(s) == Spaced(Signed(s))
=============================================================================
