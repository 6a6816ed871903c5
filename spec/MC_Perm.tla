------------------------------ MODULE MC_Perm ------------------------------
(* Laws of the specified permutations, for all triples within the bounds.   *)
EXTENDS PermSpec

CONSTANTS MaxLen, MaxPer, Triples

VARIABLES p, q, r

FinitePerms == {Finite(s) : s \in UNION {PermSeqs(n) : n \in 0 .. MaxLen}}
PeriodicPerms == {Periodic(s) : s \in UNION {PermSeqs(n) : n \in 1 .. MaxPer}}

Init == p \in FinitePerms \cup PeriodicPerms /\ q = Neutral /\ r = Neutral
Next == /\ q = Neutral /\ r = Neutral
        /\ LET pool == IF p = Neutral THEN FinitePerms \cup PeriodicPerms ELSE IF p.per = 0 THEN FinitePerms ELSE PeriodicPerms
           IN  q' \in pool /\ r' \in (IF Triples THEN pool ELSE {Neutral}) /\ Compatible(q', r')
        /\ UNCHANGED p

Pq == Mul(p, q)

IsCanonical == /\ Pq.per = 0 => Finite(Pq.seq) = Pq
               /\ Pq.per > 0 => Periodic(Pq.seq) = Pq
Pointwise == \A i \in 0 .. 25 : At(Pq, i) = At(p, At(q, i))
Associative == Mul(Pq, r) = Mul(p, Mul(q, r))
Inverses == Mul(p, Inv(p)) = Neutral /\ Mul(Inv(p), p) = Neutral /\ Inv(Pq) = Mul(Inv(q), Inv(p))
\* equality as records is equality as bijections
Extensional == (p = q) <=> \A i \in 0 .. 25 : At(p, i) = At(q, i)
OrderLeast == LET o == Num(OrderBits(p)) IN Power(p, o) = Neutral /\ \A k \in 1 .. (o - 1) : Power(p, k) # Neutral
Powers == q = Neutral => \A k \in -4 .. 7 : Power(p, k + 1) = Mul(p, Power(p, k)) /\ Power(p, -1) = Inv(p) /\ Power(p, 0) = Neutral
Action == LET v == [i \in 1 .. 12 |-> i * i]
          IN  OnVector(Pq, v) = OnVector(p, OnVector(q, v))
RankOrder == (p.per = 0 /\ q.per = 0) =>
             LET n == MaxLen
                 x == Prefix(p, n)
                 y == Prefix(q, n)
             IN  /\ RevColexLess(x, y) <=> BitsLess(LeftRank(x), LeftRank(y))
                 /\ LexLess(x, y) <=> BitsLess(RightRank(x), RightRank(y))
                 /\ LeftRank(x) = LeftRank(p.seq)
                 /\ (InversionsOf(x) = InversionsOf(y)) <=> (x = y)
                 /\ Odd(Cardinality(InversionsOf(Prefix(Pq, n))))
                    <=> (Odd(Cardinality(InversionsOf(x))) # Odd(Cardinality(InversionsOf(y))))
Schoute == (p.per = 0 /\ q.per = 0) => SchoutePerm(Pq) = Mul(SchoutePerm(p), SchoutePerm(q))
=============================================================================
