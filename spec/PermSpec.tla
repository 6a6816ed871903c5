------------------------------ MODULE PermSpec ------------------------------
(* Permutations of the naturals that are finite (per = 0) or repeat a block  *)
(* pattern of length per > 0.  A value is a record [per, seq]:               *)
(*   per = 0: seq is the shortest prefix outside of which nothing moves      *)
(*   per > 0: seq is one period, and no shorter period describes it          *)
(* The neutral permutation is [per |-> 0, seq |-> <<>>].                     *)
EXTENDS Common

At(p, i) ==
  IF p.per = 0 THEN (IF i < Len(p.seq) THEN p.seq[i + 1] ELSE i)
  ELSE (i - (i % p.per)) + p.seq[(i % p.per) + 1]

Prefix(p, n) == [i \in 1 .. n |-> At(p, i - 1)]

Neutral == [per |-> 0, seq |-> <<>>]
MovedIn(seq) == {i - 1 : i \in {j \in 1 .. Len(seq) : seq[j] # j - 1}}

IsPermSeq(seq) == Ran(seq) = Below(Len(seq))

Finite(seq) ==
  [per |-> 0, seq |-> IF MovedIn(seq) = {} THEN <<>> ELSE SubSeq(seq, 1, MaxOf(MovedIn(seq)) + 1)]

\* d is a period of the block pattern seq
Repeats(seq, d) ==
  /\ Len(seq) % d = 0
  /\ Ran(SubSeq(seq, 1, d)) = Below(d)
  /\ \A i \in (d + 1) .. Len(seq) : seq[i] = seq[i - d] + d

Periodic(seq) ==
  IF MovedIn(seq) = {} THEN Neutral
  ELSE LET d == MinOf({d \in 1 .. Len(seq) : Repeats(seq, d)})
       IN  [per |-> d, seq |-> SubSeq(seq, 1, d)]

(* --- denotation ------------------------------------------------------------ *)
(* kinds: "seq" (d.data a sequence), "cycles" (d.data a sequence of           *)
(* sequences), "dict" (d.data a sequence of pairs), "malformed";              *)
(* d.per = <<>> or <<period>>                                                 *)

CycleMap(cycles) ==
  [x \in UNION {Ran(cycles[i]) : i \in DOMAIN cycles} |->
     LET c == CHOOSE i \in DOMAIN cycles : x \in Ran(cycles[i])
         k == CHOOSE k \in DOMAIN cycles[c] : cycles[c][k] = x
     IN  cycles[c][IF k = Len(cycles[c]) THEN 1 ELSE k + 1]]

MapOf(d) ==
  CASE d.kind = "seq" -> [i \in Below(Len(d.data)) |-> d.data[i + 1]]
    [] d.kind = "cycles" -> CycleMap(d.data)
    [] d.kind = "dict" -> [x \in {d.data[i][1] : i \in DOMAIN d.data} |->
                             (CHOOSE q \in Ran(d.data) : q[1] = x)[2]]

WellFormed(d) ==
  CASE d.kind = "seq" -> IsPermSeq(d.data)
    [] d.kind = "cycles" -> /\ IsInjectiveSeq(Flat(d.data))
                            /\ \A x \in Ran(Flat(d.data)) : x >= 0
    [] d.kind = "dict" -> /\ \A x \in Ran(Flat(d.data)) : x >= 0
                          /\ {q[1] : q \in Ran(d.data)} = {q[2] : q \in Ran(d.data)}
    [] d.kind = "malformed" -> FALSE

MovedBy(m) == {x \in DOMAIN m : m[x] # x}

AdmissiblePerm(d) ==
  /\ WellFormed(d)
  /\ (d.per # <<>> /\ MovedBy(MapOf(d)) # {}) => d.per[1] >= 2 /\ d.per[1] > MaxOf(MovedBy(MapOf(d)))

SeqUpTo(m, n) == [i \in 1 .. n |-> IF (i - 1) \in DOMAIN m THEN m[i - 1] ELSE i - 1]

DenotedPerm(d) ==
  LET m == MapOf(d)
      M == MovedBy(m)
  IN  IF M = {} THEN Neutral
      ELSE IF d.per = <<>> THEN Finite(SeqUpTo(m, MaxOf(M) + 1))
      ELSE Periodic(SeqUpTo(m, d.per[1]))

(* --- views ------------------------------------------------------------------ *)

PermLength(p) == Len(p.seq)

RECURSIVE OrbitFrom(_, _, _)
OrbitFrom(p, x, y) == IF y = x THEN <<>> ELSE <<y>> \o OrbitFrom(p, x, At(p, y))
CycleOf(p, x) == <<x>> \o OrbitFrom(p, x, At(p, x))

\* cycles of one block: every cycle starts with its smallest element, cycles ordered by that element
Cycles(p) ==
  LET moved == MovedIn(p.seq)
      starts == {x \in moved : \A y \in Ran(CycleOf(p, x)) : x <= y}
      s == Asc(starts)
  IN  [i \in 1 .. Len(s) |-> CycleOf(p, s[i])]

CyclesUpTo(p, n) ==
  LET c == Cycles(p)
  IN  Flat([b \in 1 .. n \div p.per |-> [i \in 1 .. Len(c) |-> [k \in 1 .. Len(c[i]) |-> c[i][k] + (b - 1) * p.per]]])

PrintedPerm(p) ==
  LET c == Cycles(p)
  IN  IF p = Neutral THEN <<"P", "e", "r", "m", "(", ")">>
      ELSE <<"P", "e", "r", "m", "(", "[">> \o Join([i \in 1 .. Len(c) |-> CharsList(c[i])], <<",", " ">>) \o <<"]">>
           \o (IF p.per = 0 THEN <<>>
               ELSE <<",", " ", "p", "e", "r", "i", "l", "e", "n", "=">> \o CharsNat(p.per))
           \o <<")">>

(* --- group ------------------------------------------------------------------ *)

Compatible(p, q) == p = Neutral \/ q = Neutral \/ (p.per = 0 <=> q.per = 0)

\* p after q
Mul(p, q) ==
  IF p = Neutral THEN q
  ELSE IF q = Neutral THEN p
  ELSE IF p.per = 0 THEN
    LET n == Max2(Len(p.seq), Len(q.seq)) IN Finite([i \in 1 .. n |-> At(p, At(q, i - 1))])
  ELSE
    LET n == Lcm(p.per, q.per) IN Periodic([i \in 1 .. n |-> At(p, At(q, i - 1))])

InvSeq(seq) == [i \in 1 .. Len(seq) |-> (CHOOSE j \in 1 .. Len(seq) : seq[j] = i - 1) - 1]
Inv(p) == [p EXCEPT !.seq = InvSeq(p.seq)]

RECURSIVE Power(_, _)
Power(p, k) ==
  IF k = 0 THEN Neutral
  ELSE IF k < 0 THEN Power(Inv(p), -k)
  ELSE LET h == Power(p, k \div 2) IN IF Odd(k) THEN Mul(p, Mul(h, h)) ELSE Mul(h, h)

\* least positive exponent whose power is neutral, as bits: the product over primes of the highest prime power
\* that divides some cycle length
IsPrime(n) == n > 1 /\ \A d \in 2 .. (n - 1) : d * d > n \/ n % d # 0
RECURSIVE PrimePart(_, _)
PrimePart(n, q) == IF n % q # 0 THEN 1 ELSE q * PrimePart(n \div q, q)
RECURSIVE MulAll(_)
MulAll(s) == IF s = <<>> THEN <<1>> ELSE MulBits(BitsOf(Head(s)), MulAll(Tail(s)))
LcmBits(S) ==     \* of a set of positive numbers
  LET primes == Asc({q \in 2 .. MaxOf(S \cup {1}) : IsPrime(q)})
  IN  MulAll([i \in 1 .. Len(primes) |-> MaxOf({PrimePart(n, primes[i]) : n \in S})])
OrderBits(p) == LET c == Cycles(p) IN LcmBits({Len(c[i]) : i \in DOMAIN c})

\* entry i of the vector goes to place p(i)
FitsVector(p, n) == IF p.per = 0 THEN n >= Len(p.seq) ELSE n % p.per = 0
OnVector(p, v) ==
  LET ip == Inv(p) IN [i \in 1 .. Len(v) |-> v[At(ip, i - 1) + 1]]

\* bit i of a number goes to place p(i)
OnNumber(p, n, x) == Num([i \in 1 .. n |-> Bit(x, At(Inv(p), i - 1))])
SchoutePerm(p) ==
  LET n == Len(p.seq)
      v == [i \in 1 .. n |-> At(Inv(p), i - 1)]
  IN  Periodic([x \in 1 .. P2(n) |-> Num([i \in 1 .. n |-> Bit(x - 1, v[i])])])

(* --- inversions and ranks ---------------------------------------------------- *)

InversionsOf(seq) ==
  {ab \in Below(Len(seq)) \X Below(Len(seq)) : ab[1] < ab[2] /\ seq[ab[1] + 1] > seq[ab[2] + 1]}
LeftCount(seq) == [i \in 1 .. Len(seq) |-> Cardinality({k \in 1 .. (i - 1) : seq[k] > seq[i]})]
RightCount(seq) == [i \in 1 .. Len(seq) |-> Cardinality({k \in (i + 1) .. Len(seq) : seq[k] < seq[i]})]
InversionVector(seq) ==
  LET lc == LeftCount(seq) IN [v \in 1 .. Len(seq) |-> lc[CHOOSE i \in 1 .. Len(seq) : seq[i] = v - 1]]

\* factoradic value: digit i (from 0) counts i factorials
RECURSIVE FactVal(_, _)
FactVal(digits, i) ==   \* sum over j >= i of digits[j] * j! / i!   (digits 0-based, as bits)
  IF i = Len(digits) THEN <<>>
  ELSE AddBits(BitsOf(digits[i + 1]), MulBits(BitsOf(i + 1), FactVal(digits, i + 1)))
LeftRank(seq) == FactVal(LeftCount(seq), 0)
RightRank(seq) == FactVal(Rev(RightCount(seq)), 0)

RevColexLess(p, q) == LexLess(Rev(q), Rev(p))

PermSeqs(n) == {s \in [1 .. n -> Below(n)] : IsInjectiveSeq(s)}
=============================================================================
