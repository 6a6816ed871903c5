----------------------------- MODULE HelperSpec -----------------------------
(* Definitions of what the helper functions calculate: number theory on       *)
(* numbers of any size (bit sequences), tables and enumerations, sorting and  *)
(* rearranging.                                                               *)
EXTENDS BoolfSpec

(* --- numbers of any size ----------------------------------------------------- *)

IsZero(b) == Ones(b) = {}
\* the place of the highest one, for positive numbers
FloorLog(b) == Need(b) - 1
CeilLog(b) == IF Weight(b) = 1 THEN FloorLog(b) ELSE Need(b)
IsPowerOfTwo(b) == Weight(b) = 1

Ten == <<0, 1, 0, 1>>
RECURSIVE DigitsFrom(_, _, _)
DigitsFrom(b, k, p) == IF BitsLess(b, p) THEN k ELSE DigitsFrom(b, k + 1, TLCEval(MulBits(Ten, p)))
DecimalDigits(b) == IF IsZero(b) THEN 0 ELSE DigitsFrom(b, 1, Ten)

\* evil numbers have an even number of ones, odious numbers an odd number; each pair 2i, 2i+1 contains one of each
EvilOf(b) == Canon(<<(Weight(b) % 2)>> \o b)
OdiousOf(b) == Canon(<<1 - (Weight(b) % 2)>> \o b)
HalfOf(b) == IF b = <<>> THEN b ELSE Canon(Tail(b))

\* the least number of arguments of a truth table that represents the number
RECURSIVE ArityFrom(_, _)
ArityFrom(need, n) == IF need <= P2(n) THEN n ELSE ArityFrom(need, n + 1)
ArityOfNumber(b) == ArityFrom(Need(b), 0)

RECURSIVE SumBits(_)
SumBits(s) == IF s = <<>> THEN <<>> ELSE AddBits(Head(s), SumBits(Tail(s)))
RECURSIVE ProdBits(_)
ProdBits(s) == IF s = <<>> THEN <<1>> ELSE MulBits(Head(s), ProdBits(Tail(s)))
PowBits(n, e) == ProdBits([i \in 1 .. e |-> BitsOf(n)])
RECURSIVE Factorial(_)
Factorial(n) == IF n = 0 THEN <<1>> ELSE MulBits(BitsOf(n), Factorial(n - 1))
\* the number with these digits, where digit i counts the factorial of i
FactoradicSum(ds) == SumBits([i \in 1 .. Len(ds) |-> MulBits(BitsOf(ds[i]), Factorial(i - 1))])
\* the same by Horner's method
RECURSIVE FactoradicFrom(_, _)
FactoradicFrom(ds, i) == IF i > Len(ds) THEN <<>> ELSE AddBits(BitsOf(ds[i]), MulBits(TLCEval(BitsOf(i)), TLCEval(FactoradicFrom(ds, i + 1))))
OfFactoradic(ds) == FactoradicFrom(ds, 1)
IsFactoradic(ds) == (\A i \in DOMAIN ds : ds[i] \in 0 .. i - 1) /\ (ds # <<>> => ds[Len(ds)] # 0)

FoldBits(ss, op) ==
  LET n == MaxOf({Len(ss[i]) : i \in DOMAIN ss} \cup {0})
      at(k) == {i \in DOMAIN ss : k <= Len(ss[i]) /\ ss[i][k] = 1}
  IN  Canon([k \in 1 .. n |-> CASE op = "and" -> (IF at(k) = DOMAIN ss THEN 1 ELSE 0)
                                [] op = "or" -> (IF at(k) # {} THEN 1 ELSE 0)
                                [] op = "xor" -> Cardinality(at(k)) % 2])

IsPrime(n) == n >= 2 /\ \A d \in 2 .. n : d * d > n \/ n % d # 0
RECURSIVE SomeDivisor(_, _)     \* is there a divisor from d up to the square root
SomeDivisor(n, d) == d * d <= n /\ (n % d = 0 \/ SomeDivisor(n, d + 1))
RECURSIVE Multiplicity(_, _)
Multiplicity(n, p) == IF n % p = 0 THEN 1 + Multiplicity(n \div p, p) ELSE 0
PrimesUpTo(n) == {p \in 2 .. n : IsPrime(p)}
\* least common multiple: each prime as often as in the number that has it most often
LcmBits(ns) ==
  LET ps == Asc(PrimesUpTo(MaxOf(Ran(ns))))
  IN  ProdBits([i \in 1 .. Len(ps) |-> PowBits(ps[i], MaxOf({Multiplicity(ns[j], ps[i]) : j \in DOMAIN ns}))])
\* the same for numbers given as lists of primes with their exponents
LcmOfProducts(products) ==
  LET all == UNION {Ran(products[i]) : i \in DOMAIN products}
      ps == Asc({x[1] : x \in all})
  IN  Canon(ProdBits([i \in 1 .. Len(ps) |-> PowBits(ps[i], MaxOf({x[2] : x \in {y \in all : y[1] = ps[i]}}))]))

RECURSIVE PascalRow(_)
PascalRow(n) ==
  IF n = 0 THEN <<<<1>>>>
  ELSE LET s == TLCEval(PascalRow(n - 1))
       IN  [k \in 1 .. n + 1 |-> AddBits(IF k = 1 THEN <<>> ELSE s[k - 1], IF k = n + 1 THEN <<>> ELSE s[k])]

\* determinant modulo m by expansion along the first row
Minor(M, j) == [r \in 1 .. Len(M) - 1 |-> Drop(M[r + 1], j)]
RECURSIVE DetMod(_, _)
DetMod(M, m) ==
  IF M = <<>> THEN 1 % m
  ELSE SumSeq([j \in 1 .. Len(M) |->
         IF M[1][j] % m = 0 THEN 0 ELSE ((((IF Odd(j) THEN 1 ELSE m - 1) * (M[1][j] % m)) % m) * DetMod(Minor(M, j), m)) % m]) % m

(* --- integers with a logical sign: n or ~n --------------------------------------- *)
\* records [neg, abs], where abs is the bit sequence of the number or its complement

LogicNot(x) == [neg |-> ~x.neg, abs |-> x.abs]

(* --- tables and enumerations ------------------------------------------------------- *)

\* argument i of n arguments; ~i is its complement
Pattern(i, n) == [k \in 1 .. P2(n) |-> IF i < 0 THEN 1 - Bit(k - 1, -1 - i) ELSE Bit(k - 1, i)]
WalshEntry(i, j) == Weigh(Num(And(BitsN(i, 12), BitsN(j, 12)))) % 2
WalshTable(n) == [i \in 1 .. P2(n) |-> [j \in 1 .. P2(n) |-> WalshEntry(i - 1, j - 1)]]
TernaryDigit(k, i) == ((k \div Pow(3, i)) % 3) - 1
TernaryVectors(n) == [k \in 1 .. Pow(3, n) |-> [i \in 1 .. n |-> TernaryDigit(k - 1, i - 1)]]
Balanced(x) == LET r == x % 3 IN IF r = 2 THEN -1 ELSE r
TernaryTable(n) ==
  LET v == TLCEval(TernaryVectors(n))
  IN  [i \in 1 .. Pow(3, n) |-> [j \in 1 .. Pow(3, n) |-> Balanced(SumSeq([d \in 1 .. n |-> v[i][d] * v[j][d]]))]]

\* the sums of the powers of two with the exponents es, in the order of their digits
SierpinskiRow(es) ==
  [k \in 1 .. P2(Len(es)) |-> SumBits([d \in 1 .. Len(es) |-> IF Bit(k - 1, d - 1) = 1 THEN Append(Zeros(es[d]), 1) ELSE <<>>])]
Within12(i, j) == \A d \in 0 .. 11 : Bit(i, d) = 1 => Bit(j, d) = 1
SierpinskiTable(o, n) ==
  LET m == P2(n)
      Row(i) == IF o \in {"tr", "tl"} THEN i ELSE m - 1 - i
      Col(j) == IF o \in {"tr", "br"} THEN j ELSE m - 1 - j
  IN  [i \in 1 .. m |-> [j \in 1 .. m |-> IF Within12(Row(i - 1), Col(j - 1)) THEN 1 ELSE 0]]
CubeEdges(n) == {e \in Below(P2(n)) \X Below(P2(n)) : e[1] < e[2] /\ \E d \in Below(n) : e[2] = e[1] + P2(d) /\ Bit(e[1], d) = 0}

\* R is the set of pairs (i, j), where node i is under node j; 1 for neighbours, 2 for other related nodes
HasseTable(n, R) ==
  [i \in 1 .. n |-> [j \in 1 .. n |->
    IF i = j \/ <<i, j>> \notin R THEN 0
    ELSE IF \E k \in (1 .. n) \ {i, j} : <<i, k>> \in R /\ <<k, j>> \in R THEN 2 ELSE 1]]

RECURSIVE PartitionsFrom(_, _)      \* ascending sequences of numbers from m with the sum n
PartitionsFrom(n, m) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o p : p \in PartitionsFrom(n - k, k)} : k \in m .. n}
IntegerPartitions(n) == PartitionsFrom(n, 1)

\* variadic connectives: all, all but an even number, some, an odd number, all or none, all but one, all or all but one
Connected(name, true, of) ==
  CASE name = "and" -> true = of
    [] name = "xand" -> true % 2 = of % 2
    [] name = "or" -> true > 0
    [] name = "xor" -> true % 2 = 1
    [] name = "eq" -> of > 0 /\ true \in {0, of}
    [] name = "sand" -> of > 0 /\ true = of - 1
    [] name = "gand" -> true = of \/ (of > 0 /\ true = of - 1)
    [] name = "esand" -> (of > 0 /\ true = of - 1) \/ (of % 2 = 0 /\ true = of)
    [] name = "osand" -> (of > 0 /\ true = of - 1) \/ (of % 2 = 1 /\ true = of)
Connective(name, lits, n) ==
  [k \in 1 .. P2(n) |->
    IF Connected(name, Cardinality({i \in DOMAIN lits : Pattern(lits[i], n)[k] = 1}), Len(lits)) THEN 1 ELSE 0]

\* the numbers of exponents, exponents of exponents, ...
RECURSIVE Rings(_)
Rings(es) ==
  LET next == Flat([i \in 1 .. Len(es) |-> Asc(Ones(BitsOf(es[i])))])
  IN  IF es = <<>> THEN <<>> ELSE <<Len(es)>> \o Rings(next)
RingCounts(b) == Rings(Asc(Ones(b)))

\* numbers that differ only in the binary digits of the index (blocks with more than one element)
Cosets(index, n) ==
  LET free == {d \in Below(n) : Bit(index, d) = 1}
  IN  {{m \in Below(P2(n)) : \A d \in Below(n) \ free : Bit(m, d) = Bit(k, d)} : k \in Below(P2(n))}

(* --- outlines --------------------------------------------------------------------------- *)
\* a subpath <<x, y, moves>> starts at x to the right and y down, the moves <<vertical, distance>> are axis-parallel lines;
\* the last line back to the start is implicit

\* where the line before move k begins
RECURSIVE ReachX(_, _)
ReachX(p, k) == IF k = 0 THEN p[1] ELSE ReachX(p, k - 1) + (IF p[3][k][1] THEN 0 ELSE p[3][k][2])
RECURSIVE ReachY(_, _)
ReachY(p, k) == IF k = 0 THEN p[2] ELSE ReachY(p, k - 1) + (IF p[3][k][1] THEN p[3][k][2] ELSE 0)
Corners(p) == [k \in 1 .. Len(p[3]) + 1 |-> <<ReachX(p, k - 1), ReachY(p, k - 1)>>]
\* all lines of a subpath, as pairs of points
LinesOf(p) ==
  LET c == TLCEval(Corners(p)) IN [k \in 1 .. Len(c) |-> <<c[k], IF k = Len(c) THEN c[1] ELSE c[k + 1]>>]
AllLines(path) == Flat([i \in 1 .. Len(path) |-> LinesOf(path[i])])
IsAxisParallel(l) == (l[1][1] = l[2][1]) # (l[1][2] = l[2][2])
\* how often the lines go around cell (i, j): down lines minus up lines to the left of the cell
Winding(lines, i, j) ==
  LET Left(k) == lines[k][1][1] = lines[k][2][1] /\ lines[k][1][1] <= j
      down == {k \in DOMAIN lines : Left(k) /\ lines[k][1][2] <= i /\ i < lines[k][2][2]}
      up == {k \in DOMAIN lines : Left(k) /\ lines[k][2][2] <= i /\ i < lines[k][1][2]}
  IN  Cardinality(down) - Cardinality(up)
\* the number of borders between a cell and its right or lower neighbour, the outside counts as white
Cell(m, i, j) == IF i \in DOMAIN m /\ j \in DOMAIN m[1] THEN m[i][j] ELSE 0
Borders(m) ==
  Cardinality({c \in (0 .. Len(m)) \X (0 .. Len(m[1])) : Cell(m, c[1], c[2]) # Cell(m, c[1], c[2] + 1)})
  + Cardinality({c \in (0 .. Len(m)) \X (0 .. Len(m[1])) : Cell(m, c[1], c[2]) # Cell(m, c[1] + 1, c[2])})
LengthOf(l) == LET Abs(x) == IF x < 0 THEN -x ELSE x IN Abs(l[1][1] - l[2][1]) + Abs(l[1][2] - l[2][2])
\* the path goes along all borders exactly once, and around the black cells only
IsOutline(path, m) ==
  LET lines == TLCEval(AllLines(path))
  IN  /\ \A k \in DOMAIN lines : IsAxisParallel(lines[k])
      /\ \A i \in 1 .. Len(m) : \A j \in 1 .. Len(m[1]) : (Winding(lines, i - 1, j - 1) # 0) = (m[i][j] = 1)
      /\ SumSeq([k \in 1 .. Len(lines) |-> LengthOf(lines[k])]) = Borders(m)

(* --- sorting and rearranging ----------------------------------------------------------- *)

CountOf(x, s) == Cardinality({i \in DOMAIN s : s[i] = x})
SameContents(s, t) == Len(s) = Len(t) /\ \A x \in Ran(s) \cup Ran(t) : CountOf(x, s) = CountOf(x, t)
Ascending(s) == \A i \in 1 .. Len(s) - 1 : s[i] <= s[i + 1]
ColexLess(a, b) == LexLess(Rev(a), Rev(b))
\* ordered by sequences
LexAscending(s) == \A i \in 1 .. Len(s) - 1 : ~LexLess(s[i + 1], s[i])
ColexAscending(s) == \A i \in 1 .. Len(s) - 1 : ~ColexLess(s[i + 1], s[i])
\* entry i of all lists in one sequence
Across(ls) == IF ls = <<>> THEN <<>> ELSE [i \in 1 .. Len(ls[1]) |-> [k \in 1 .. Len(ls) |-> ls[k][i]]]
\* the rows of all matrices in one sequence
Rows(ms) == [i \in 1 .. Len(ms[1]) |-> Flat([k \in 1 .. Len(ms) |-> ms[k][i]])]
Turned(m) == [j \in 1 .. Len(m[1]) |-> [i \in 1 .. Len(m) |-> m[i][j]]]
Mirrored(m) == [i \in 1 .. Len(m) |-> Rev(m[i])]

\* entries with the same value of the pattern, in their order
Apart(s, p) ==
  LET PlacesOf(v) == SelectSeq([i \in 1 .. Len(p) |-> i], LAMBDA i : p[i] = v)
  IN  [v \in 1 .. MaxOf(Ran(p)) + 1 |-> [i \in 1 .. Len(PlacesOf(v - 1)) |-> s[PlacesOf(v - 1)[i]]]]
Together(ss, p) == [i \in 1 .. Len(p) |-> ss[p[i] + 1][Cardinality({j \in 1 .. i : p[j] = p[i]})]]
Before(s) == [i \in 1 .. Len(s) |-> Cardinality({j \in 1 .. i - 1 : s[j] = s[i]})]

\* trees: a leaf <<0, value>>, a list <<1, children>>, a dictionary <<2, <<key, child>> pairs>>, a tuple <<3, children>>
RECURSIVE Leaves(_)
Leaves(t) == IF t[1] = 0 THEN <<t[2]>> ELSE Flat([i \in 1 .. Len(t[2]) |-> Leaves(t[2][i])])
RECURSIVE Paths(_)
Paths(t) ==
  Flat([i \in 1 .. Len(t[2]) |->
    LET key == IF t[1] = 2 THEN t[2][i][1] ELSE i - 1
        child == IF t[1] = 2 THEN t[2][i][2] ELSE t[2][i]
    IN  IF child[1] \in {1, 2} /\ child[2] # <<>> THEN [j \in 1 .. Len(Paths(child)) |-> <<key>> \o Paths(child)[j]] ELSE <<<<key>>>>])
=============================================================================
