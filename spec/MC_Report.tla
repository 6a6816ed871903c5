----------------------------- MODULE MC_Report -----------------------------
(* Laws of the arithmetic and the orders used in reports.                     *)
EXTENDS ReportSpec
CONSTANTS Top, N
VARIABLES a, b

Init == a \in Below(Top) /\ b = -1
Next == b = -1 /\ b' \in Below(Top) /\ UNCHANGED a

Arithmetic ==
  b >= 0 =>
    LET x == BitsOf(a) y == BitsOf(b) IN
    /\ SubBits(AddBits(x, y), y) = x
    /\ Gap(x, y) = Gap(y, x) /\ Num(Gap(x, y)) = (IF a < b THEN b - a ELSE a - b)
    /\ Odd(b) => Num(GcdOdd(x, y)) = Gcd(a, b)
    /\ Compare(x, y) = (IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1)
    /\ a < 4 => Num(TenTo(a)) = Pow(10, a)
    /\ (a > 0 /\ b > 0) => SameRatio(x, y, MulBits(x, <<1, 1>>), MulBits(y, <<1, 1>>))

\* a and b as tables of functions with N arguments
T(x) == BitsN(x % P2(P2(N)), P2(N))
Orders ==
  b >= 0 =>
    LET t == T(a) u == T(b) IN
    /\ VeroKey(t) = VeroKey(u) <=> t = u
    /\ FalsoKey(t) = FalsoKey(u) <=> t = u
    \* complement turns both orders round, up to the reflection of the layers
    /\ Swan({t, u}, TRUE) = Not(SortedTables({Not(t), Not(u)}, TRUE)[1])
    /\ Swan({t, u}, FALSE) = Not(LET s == SortedTables({Not(t), Not(u)}, FALSE) IN s[Len(s)])
    \* reversal of the table exchanges the layers
    /\ LayerWeights(Rev(t)) = Rev(LayerWeights(t))
    /\ FalsoKey(t) = LayerWeights(Rev(t)) \o Flat(Layered(Rev(t))) \o t

Lines ==
  b >= 0 =>
    LET s == CharsList(<<a, -b, b>>) IN
    /\ SelectSeq(LineUp(s), LAMBDA c : c # " ") = SelectSeq(s, LAMBDA c : c # " ")
    /\ Len(LineUp(s)) = Len(s) + (IF b = 0 THEN 3 ELSE 2)

MaskOrder ==
  LET S == {x \in Below(16) : Odd(a \div (x + 1))} s == ByWeight(S) IN
  /\ Ran(s) = S /\ Len(s) = Cardinality(S)
  /\ \A i \in 1 .. (Len(s) - 1) : Weigh(s[i]) < Weigh(s[i + 1]) \/ (Weigh(s[i]) = Weigh(s[i + 1]) /\ s[i] < s[i + 1])
  /\ \A i \in 1 .. Len(s) : Borders(s)[i] = (i > 1 /\ Weigh(s[i - 1]) < Weigh(s[i]))
=============================================================================
