----------------------------- MODULE MC_Helper -----------------------------
(* Laws of HelperSpec, for all small numbers, words, patterns and orders.     *)
EXTENDS HelperSpec

CONSTANTS Numbers, Length, Values
VARIABLES n, word, pattern
vars == <<n, word, pattern>>

Words == UNION {[1 .. k -> 1 .. Values] : k \in 0 .. Length}
Init ==
  /\ n \in 0 .. Numbers
  /\ word = <<>>
  /\ pattern = <<>>
\* the word and the pattern grow together
Next ==
  /\ n = 0
  /\ Len(word) < Length
  /\ \E x \in 1 .. Values, p \in 0 .. Values - 1 : word' = Append(word, x) /\ pattern' = Append(pattern, p)
  /\ UNCHANGED n
Spec == Init /\ [][Next]_vars

b == BitsOf(n)

Logarithms ==
  n > 0 => /\ P2(FloorLog(b)) <= n /\ n < P2(FloorLog(b) + 1)
           /\ P2(CeilLog(b)) >= n /\ (n > 1 => P2(CeilLog(b) - 1) < n)
           /\ IsPowerOfTwo(b) <=> FloorLog(b) = CeilLog(b)
Decimals == n > 0 => Pow(10, DecimalDigits(b) - 1) <= n /\ n < Pow(10, DecimalDigits(b))
\* the evil and the odious numbers are two ascending sequences that share all numbers among them
EvilOdious ==
  /\ Weight(EvilOf(b)) % 2 = 0 /\ Weight(OdiousOf(b)) % 2 = 1
  /\ {Num(EvilOf(b)), Num(OdiousOf(b))} = {2 * n, 2 * n + 1}
  /\ HalfOf(EvilOf(b)) = b /\ HalfOf(OdiousOf(b)) = b
  /\ Cardinality({m \in 0 .. Num(EvilOf(b)) - 1 : Weigh(m) % 2 = 0}) = n
Arities == /\ Need(b) <= P2(ArityOfNumber(b)) /\ (ArityOfNumber(b) > 0 => Need(b) > P2(ArityOfNumber(b) - 1))
Lcms ==
  \A m \in 1 .. 12 : n > 0 => LET l == Num(LcmBits(<<n, m>>)) IN l = Lcm(n, m) /\ l % n = 0 /\ l % m = 0
Pascal ==
  n <= 12 => LET row == PascalRow(n)
             IN  /\ Num(SumBits(row)) = P2(n)
                 /\ \A k \in 0 .. n : Num(row[k + 1]) = Cardinality({s \in SUBSET (1 .. n) : Cardinality(s) = k})
                 /\ Rev(row) = row
\* each number has exactly one factoradic notation
DigitLists == {ds \in UNION {[1 .. k -> 0 .. 3] : k \in 0 .. 4} : IsFactoradic(ds)}
Factoradics ==
  /\ n < 24 => Cardinality({ds \in DigitLists : Num(Canon(OfFactoradic(ds))) = n}) = 1
  /\ n = 0 => \A ds \in DigitLists : Canon(OfFactoradic(ds)) = Canon(FactoradicSum(ds))
\* a determinant changes its sign when rows are swapped and is linear in a row
MatrixOf(k) == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> ((k * (7 * i + j * j) + 3 * i * j) % 11) - 5]]
Determinants ==
  LET M == MatrixOf(n)
      D(X) == DetMod(X, 32749)
      plus == [M EXCEPT ![1] = [j \in 1 .. 3 |-> M[1][j] + 2 * M[2][j]]]
  IN  /\ (D(M) + D(<<M[2], M[1], M[3]>>)) % 32749 = 0
      /\ D(plus) = D(M)
      /\ D(<<M[1], M[1], M[3]>>) = 0
      /\ D([i \in 1 .. 3 |-> [j \in 1 .. 3 |-> M[j][i]]]) = D(M)
      /\ D([i \in 1 .. 3 |-> [j \in 1 .. 3 |-> IF i = j THEN 1 ELSE 0]]) = 1
\* row n of the triangle contains the numbers whose binary digits are within those of n
SierpinskiRows ==
  n < 64 => LET row == SierpinskiRow(Asc(Ones(b)))
            IN  /\ {Num(Canon(row[i])) : i \in DOMAIN row} = {m \in 0 .. n : Within12(m, n)}
                /\ \A i \in 1 .. Len(row) - 1 : Num(row[i]) < Num(row[i + 1])
Tables ==
  n \in 1 .. 3 =>
    /\ \A o \in {"tl", "tr", "bl", "br"} : SumSeq([i \in 1 .. P2(n) |-> SumSeq(SierpinskiTable(o, n)[i])]) = Pow(3, n)
    /\ \A i \in 1 .. P2(n) : WalshTable(n)[i] = (LET s == {d \in Below(n) : Bit(i - 1, d) = 1}
                              IN [k \in 1 .. P2(n) |-> Cardinality({d \in s : Pattern(d, n)[k] = 1}) % 2])
    /\ \A i, j \in 1 .. Pow(3, n) : TernaryTable(n)[i][j] = TernaryTable(n)[j][i]
    /\ IsInjectiveSeq(TernaryVectors(n))
    /\ Cardinality(CubeEdges(n)) = n * P2(n - 1)
Connectives ==
  n \in 1 .. 3 => \A p \in [1 .. n -> {-1, 1}] :
    LET l == [i \in 1 .. n |-> IF p[i] = 1 THEN i - 1 ELSE -i]
        C(name) == Connective(name, l, n)
    IN  /\ C("gand") = Or(C("and"), C("sand"))
        /\ C("esand") = (IF Odd(n) THEN C("sand") ELSE C("gand")) /\ C("osand") = (IF Odd(n) THEN C("gand") ELSE C("sand"))
        /\ C("xand") = (IF Odd(n) THEN C("xor") ELSE Not(C("xor")))
        /\ C("or") = Not(Connective("and", [i \in 1 .. n |-> -1 - l[i]], n))
        /\ C("eq") = Or(C("and"), Connective("and", [i \in 1 .. n |-> -1 - l[i]], n))
Partitions == n \in 1 .. 8 =>
  /\ \A p \in IntegerPartitions(n) : SumSeq(p) = n /\ Ascending(p) /\ \A i \in DOMAIN p : p[i] >= 1
  /\ Cardinality(IntegerPartitions(n)) = <<1, 2, 3, 5, 7, 11, 15, 22>>[n]
\* the direct edges generate the whole order
Orders ==
  n \in 1 .. 200 =>
    LET s == Asc({d \in 1 .. n : n % d = 0})
        m == Len(s)
        R == {p \in (1 .. m) \X (1 .. m) : s[p[2]] % s[p[1]] = 0 /\ p[1] # p[2]}
        direct == {p \in R : HasseTable(m, R)[p[1]][p[2]] = 1}
        RECURSIVE Closure(_)
        Closure(q) == LET next == q \cup {<<x[1], y[2]>> : <<x, y>> \in {z \in q \X q : z[1][2] = z[2][1]}} IN IF next = q THEN q ELSE Closure(next)
    IN  /\ Closure(direct) = R
        /\ \A p \in direct : Closure(direct \ {p}) # R
RingSums == Len(RingCounts(b)) > 0 => RingCounts(b)[1] = Weight(b)

ApartTogether ==
  pattern # <<>> => LET parts == Apart(word, pattern)
                    IN  /\ Together(parts, pattern) = word
                        /\ SumSeq([i \in 1 .. Len(parts) |-> Len(parts[i])]) = Len(word)
                        /\ \A v \in 1 .. Len(parts) : Len(parts[v]) = CountOf(v - 1, pattern)
Occurrences == \A i \in DOMAIN word : \A j \in 1 .. i - 1 : (word[i] = word[j]) => Before(word)[j] < Before(word)[i]
\* the order of reversed sequences is a strict linear order
Colex ==
  \A w \in Words : Len(w) = Len(word) => (IF w = word THEN ~ColexLess(w, word) ELSE (ColexLess(w, word) <=> ~ColexLess(word, w)))
Folds ==
  LET ss == [i \in 1 .. Len(word) |-> BitsOf(word[i])]
  IN  word # <<>> => \A d \in 0 .. 3 :
        /\ Bit(Num(FoldBits(ss, "xor")), d) = Cardinality({i \in DOMAIN word : Bit(word[i], d) = 1}) % 2
        /\ (Bit(Num(FoldBits(ss, "or")), d) = 1) = (\E i \in DOMAIN word : Bit(word[i], d) = 1)
        /\ (Bit(Num(FoldBits(ss, "and")), d) = 1) = (\A i \in DOMAIN word : Bit(word[i], d) = 1)

\* drawing a square around each black cell is an outline, if and only if no black cells are neighbours
Picture == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> Bit(n, 3 * (i - 1) + j - 1)]]
Outlines ==
  n < 512 =>
    LET black == {c \in (1 .. 3) \X (1 .. 3) : Picture[c[1]][c[2]] = 1}
        Square(c) == <<c[2] - 1, c[1] - 1, <<<<FALSE, 1>>, <<TRUE, 1>>, <<FALSE, -1>>>>>>
        RECURSIVE Squares(_)
        Squares(s) == IF s = {} THEN <<>> ELSE LET c == CHOOSE c \in s : TRUE IN <<Square(c)>> \o Squares(s \ {c})
        path == TLCEval(Squares(black))
        lines == TLCEval(AllLines(path))
        near == \E c, d \in black : (c[1] = d[1] /\ c[2] = d[2] + 1) \/ (c[2] = d[2] /\ c[1] = d[1] + 1)
    IN  /\ \A i, j \in 0 .. 2 : Winding(lines, i, j) \in (IF <<i + 1, j + 1>> \in black THEN {-1, 1} ELSE {0})
        /\ IsOutline(path, Picture) <=> ~near
=============================================================================
