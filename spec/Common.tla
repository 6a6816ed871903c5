------------------------------- MODULE Common -------------------------------
(* Vocabulary shared by all modules: sequences as finite functions, bit      *)
(* sequences as natural numbers (little-endian, so numbers of any size can   *)
(* be handled although TLC integers have 32 bits), partitions, closures.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ran(s) == {s[i] : i \in DOMAIN s}

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

Below(n) == 0 .. (n - 1)

IsInjectiveSeq(s) == Cardinality(Ran(s)) = Len(s)

\* the ascending sequence of a finite set of integers
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o Asc(S \ {m})

Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]

\* seq[a:b] with 0-based half-open bounds
Slice(s, a, b) == SubSeq(s, a + 1, b)

Repeat(x, n) == [i \in 1 .. n |-> x]

Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))   \* without the i-th entry

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE SumFun(_, _)
SumFun(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumFun(f, S \ {x})

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

Two == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288,
         1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456, 536870912, 1073741824>>
P2(n) == Two[n + 1]          \* 2^n for n <= 30

Odd(n) == n % 2 = 1

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b

----------------------------------------------------------------------------
(* bit sequences *)

BitSeqs(n) == [1 .. n -> {0, 1}]
Zeros(n) == Repeat(0, n)

Ones(b) == {i - 1 : i \in {j \in 1 .. Len(b) : b[j] = 1}}          \* exponent set
Weight(b) == Cardinality({j \in 1 .. Len(b) : b[j] = 1})
BitsOfSet(S, n) == [i \in 1 .. n |-> IF (i - 1) \in S THEN 1 ELSE 0]

Not(b) == [i \in 1 .. Len(b) |-> 1 - b[i]]
And(a, b) == [i \in 1 .. Len(a) |-> IF a[i] = 1 /\ b[i] = 1 THEN 1 ELSE 0]
Or(a, b) == [i \in 1 .. Len(a) |-> IF a[i] = 1 \/ b[i] = 1 THEN 1 ELSE 0]
Xor(a, b) == [i \in 1 .. Len(a) |-> IF a[i] # b[i] THEN 1 ELSE 0]

\* number of leading places needed (position of the highest 1, plus 1)
RECURSIVE NeedUpTo(_, _)
NeedUpTo(b, n) == IF n = 0 THEN 0 ELSE IF b[n] = 1 THEN n ELSE NeedUpTo(b, n - 1)
Need(b) == NeedUpTo(b, Len(b))
Canon(b) == SubSeq(b, 1, Need(b))                                   \* canonical form of the number
Pad(b, n) == [i \in 1 .. n |-> IF i <= Len(b) THEN b[i] ELSE 0]     \* to length n (also truncates)

\* the bits of a small number
RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN <<>> ELSE <<n % 2>> \o BitsOf(n \div 2)
BitsN(n, len) == [i \in 1 .. len |-> (n \div P2(i - 1)) % 2]
\* the number of a short bit sequence
RECURSIVE Num(_)
Num(b) == IF b = <<>> THEN 0 ELSE Head(b) + 2 * Num(Tail(b))

Bit(n, i) == (n \div P2(i)) % 2                                     \* digit i of a small number
RECURSIVE Weigh(_)
Weigh(n) == IF n = 0 THEN 0 ELSE (n % 2) + Weigh(n \div 2)

\* numerical comparison of numbers given by their bits (any length)
BitsLess(a, b) ==
  LET n == Max2(Len(a), Len(b))
      x == Pad(a, n)
      y == Pad(b, n)
      D == {i \in 1 .. n : x[i] # y[i]}
  IN  D # {} /\ LET d == MaxOf(D) IN x[d] < y[d]

\* arithmetic on numbers of any size
RECURSIVE AddC(_, _, _)
AddC(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<1>>)
  ELSE LET x == IF a = <<>> THEN 0 ELSE Head(a)
           y == IF b = <<>> THEN 0 ELSE Head(b)
           s == x + y + c
       IN  <<s % 2>> \o AddC(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), s \div 2)
AddBits(a, b) == Canon(AddC(a, b, 0))
RECURSIVE MulBits(_, _)
MulBits(a, b) ==
  IF a = <<>> THEN <<>>
  ELSE LET rest == <<0>> \o MulBits(Tail(a), b)
       IN  IF Head(a) = 1 THEN AddBits(b, rest) ELSE Canon(rest)

\* lexicographic order of sequences of numbers (a proper prefix is smaller)
LexLess(a, b) ==
  LET n == Min2(Len(a), Len(b))
      D == {i \in 1 .. n : a[i] # b[i]}
  IN  IF D = {} THEN Len(a) < Len(b)
      ELSE LET d == MinOf(D) IN a[d] < b[d]

----------------------------------------------------------------------------
(* characters: text is compared as the sequence of its characters *)

Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE CharsNat(_)
CharsNat(n) == IF n < 10 THEN <<Digit[n + 1]>> ELSE CharsNat(n \div 10) \o <<Digit[(n % 10) + 1]>>
CharsInt(n) == IF n < 0 THEN <<"-">> \o CharsNat(-n) ELSE CharsNat(n)
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>>
                 ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)
CharsBits(b) == [i \in 1 .. Len(b) |-> Digit[b[i] + 1]]
CharsList(s) == <<"[">> \o Join([i \in 1 .. Len(s) |-> CharsInt(s[i])], <<",", " ">>) \o <<"]">>

----------------------------------------------------------------------------
(* relations and partitions *)

\* the blocks of the finest partition of S in which related elements share a block; R is a set of pairs
RECURSIVE Spread(_, _)
Spread(R, X) ==
  LET Y == X \cup {r[2] : r \in {q \in R : q[1] \in X}} \cup {r[1] : r \in {q \in R : q[2] \in X}}
  IN  IF Y = X THEN X ELSE Spread(R, Y)
Components(S, R) == {Spread(R, {x}) : x \in S}

BlocksOf(P) == {B \in P : Cardinality(B) > 1}            \* without the singletons
SetsOf(ss) == {Ran(ss[i]) : i \in DOMAIN ss}             \* sequence of sequences as set of sets

Fail(ok, name) == IF ok THEN {} ELSE {name}
=============================================================================
