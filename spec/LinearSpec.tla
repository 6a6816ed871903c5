----------------------------- MODULE LinearSpec -----------------------------
(* Linear Boolean functions, Walsh distances, consuls and prefects; nobles     *)
(* (fixed points of the Zhegalkin transform), patrons, quadrants and foibles.  *)
EXTENDS BoolfSpec

SharedDigits(j, k, n) == Cardinality({i \in Below(n) : Bit(j, i) = 1 /\ Bit(k, i) = 1})
\* parity of the digits shared with w (see MC_Linear)
RECURSIVE Row(_, _)
Row(w, n) == IF n = 0 THEN <<0>> ELSE LET r == Row(w, n - 1) IN r \o (IF Bit(w, n - 1) = 1 THEN Not(r) ELSE r)
LinearTT(w, odd, n) == IF odd = 1 THEN Not(Row(w, n)) ELSE Row(w, n)
LinearFn(w, odd) == LET n == Len(BitsOf(w)) IN OfTable(LinearTT(w, odd, n))

\* the only linear function that agrees with the table where at most one argument is true
WalshIndex(t) == LET n == Log2(Len(t)) IN Num([i \in 1 .. n |-> IF t[1 + P2(i - 1)] # t[1] THEN 1 ELSE 0])
IsLinearTT(t) == t = LinearTT(WalshIndex(t), t[1], Log2(Len(t)))
LeaderOfRow(w) == w \div 2
QuadrantOfRow(w, odd) == odd + 2 * ((Weigh(w) + odd) % 2)
\* the other way round
Evil(i) == 2 * i + (Weigh(i) % 2)
Odious(i) == 2 * i + 1 - (Weigh(i) % 2)
RowOfLeader(i, q) == IF q \in {0, 3} THEN Evil(i) ELSE Odious(i)
OddOfQuadrant(q) == q % 2

Hamming(s, t) == Weight(Xor(s, t))
Distances(t) == LET n == Log2(Len(t)) IN [w \in 1 .. Len(t) |-> Hamming(t, Row(w - 1, n))]
Abs(s) == [i \in DOMAIN s |-> IF s[i] < 0 THEN -s[i] ELSE s[i]]

\* digit i is the parity of the true places with digit i
Consul(t) ==
  LET n == Log2(Len(t))
  IN  Num([i \in 1 .. n |-> Cardinality({k \in Ones(t) : Bit(k, i - 1) = 1}) % 2])

\* sum of the parities that replace the monomials of the algebraic normal form z
PrefectIndex(z) == Consul(z)
PrefectOdd(z) == Cardinality({k \in Ones(z) : ~Odd(Weigh(k))}) % 2
PrefectTT(z) == LinearTT(PrefectIndex(z), PrefectOdd(z), Log2(Len(z)))

(* --- nobles ------------------------------------------------------------------ *)

IsNoble(t) == Zhegalkin(t) = t
\* the noble with index i, a table with one argument less
NobleOf(i) == Xor(Zhegalkin(i), i) \o i
NobleIndex(t) == IF Len(t) = 1 THEN <<0>> ELSE Half(t, 1)
Quadrant(t) == t[1] + 2 * t[Len(t)]
NobleQuadrant(t) == IF Len(t) = 1 THEN 0 ELSE Quadrant(NobleIndex(t))
LastOnly(m) == [k \in 1 .. m |-> IF k = m THEN 1 ELSE 0]
AllButFirst(m) == [k \in 1 .. m |-> IF k = 1 THEN 0 ELSE 1]
Royal(t) ==
  LET m == Len(t)
      q == NobleQuadrant(t)
      s == IF q \in {1, 2} THEN Xor(t, LastOnly(m)) ELSE t
  IN  IF q \in {1, 3} THEN Xor(s, AllButFirst(m)) ELSE s

PermSeqs(n) == {p \in [1 .. n -> Below(n)] : IsInjectiveSeq(p)}
PermuteTT(t, p) == [k \in 1 .. Len(t) |-> t[1 + Gather(k - 1, p)]]
SmallestBits(S) == CHOOSE x \in S : \A y \in S : x = y \/ BitsLess(x, y)
King(t) == LET r == Royal(t) IN SmallestBits({PermuteTT(r, p) : p \in PermSeqs(Log2(Len(t)))})

Patron(t) == Xor(t, Zhegalkin(t))
Praetor(t) == Xor(Half(t, 0), Half(t, 1))

(* --- foibles ------------------------------------------------------------------- *)

IsOdd(t) == t[1]
IsOdious(t) == t[Len(t)]
IsSharp(t) == Weight(t) % 2
Sum2(a, b) == (a + b) % 2
Leader(t) ==
  LET q == Quadrant(t)
      s == IF q \in {2, 3} THEN Not(t) ELSE t
  IN  IF q \in {1, 2} THEN [s EXCEPT ![1] = 1 - @] ELSE s
\* parity of the four entries around the middle
IsSolid(t) == LET h == Len(t) \div 2 IN (t[h - 1] + t[h] + t[h + 1] + t[h + 2]) % 2
=============================================================================
