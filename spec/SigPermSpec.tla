---------------------------- MODULE SigPermSpec ----------------------------
(* Signed permutations.  A literal is an integer: v >= 0, or its negation    *)
(* -v-1.  A signed permutation is the sequence of the literals to which the  *)
(* places 0, 1, 2 ... are sent, without trailing unnegated fixed points.     *)
EXTENDS PermSpec

Neg(x) == -x - 1
Abs(x) == IF x < 0 THEN Neg(x) ELSE x
SignedBy(x, neg) == IF neg THEN Neg(x) ELSE x

IsSigSeq(s) == {Abs(x) : x \in Ran(s)} = Below(Len(s))

TrimSig(s) ==
  LET M == {i \in 1 .. Len(s) : s[i] # i - 1}
  IN  IF M = {} THEN <<>> ELSE SubSeq(s, 1, MaxOf(M))

SAt(s, i) == IF i < Len(s) THEN s[i + 1] ELSE i
OnLiteral(s, x) == IF x < 0 THEN Neg(SAt(s, Neg(x))) ELSE SAt(s, x)
SPrefix(s, n) == [i \in 1 .. n |-> SAt(s, i - 1)]

SMul(s, t) == LET n == Max2(Len(s), Len(t)) IN TrimSig([i \in 1 .. n |-> OnLiteral(s, SAt(t, i - 1))])
SInv(s) ==
  [v \in 1 .. Len(s) |-> LET i == CHOOSE i \in 1 .. Len(s) : Abs(s[i]) = v - 1 IN SignedBy(i - 1, s[i] < 0)]

AbsSeq(s) == [i \in 1 .. Len(s) |-> Abs(s[i])]
ValNeg(s) == {Neg(x) : x \in {y \in Ran(s) : y < 0}}
KeyNeg(s) == {i - 1 : i \in {j \in 1 .. Len(s) : s[j] < 0}}

\* row m, column n is 1 or -1 where place n goes to m or to its negation
SMatrix(s, n) ==
  [row \in 1 .. n |-> [col \in 1 .. n |->
     LET x == SAt(s, col - 1) IN IF x = row - 1 THEN 1 ELSE IF x = Neg(row - 1) THEN -1 ELSE 0]]
IsSMatrix(m) ==
  LET n == Len(m)
      ok(line) == Cardinality({i \in 1 .. n : line[i] # 0}) = 1 /\ \A i \in 1 .. n : line[i] \in {-1, 0, 1}
  IN  /\ \A r \in 1 .. n : Len(m[r]) = n
      /\ \A r \in 1 .. n : ok(m[r])
      /\ \A c \in 1 .. n : ok([r \in 1 .. n |-> m[r][c]])
MatrixSeq(m) ==
  [c \in 1 .. Len(m) |-> LET r == CHOOSE r \in 1 .. Len(m) : m[r][c] # 0 IN SignedBy(r - 1, m[r][c] < 0)]
MatMul(a, b) ==
  LET n == Len(a)
      cell(r, c) == SumSeq([k \in 1 .. n |-> a[r][k] * b[k][c]])
  IN  [r \in 1 .. n |-> [c \in 1 .. n |-> cell(r, c)]]
Transposed(m) == [r \in 1 .. Len(m) |-> [c \in 1 .. Len(m) |-> m[c][r]]]

\* action on vectors of integers: the entry of place i goes to place |s(i)|, negated if the literal is
SOnVector(s, v) ==
  LET t == SInv(s) IN [i \in 1 .. Len(v) |-> LET x == SAt(t, i - 1) IN SignedBy(v[Abs(x) + 1], x < 0)]
\* action on bits
SOnBits(s, b) ==
  LET t == SInv(s)
  IN  [i \in 1 .. Len(b) |-> LET x == SAt(t, i - 1) IN IF x < 0 THEN 1 - b[Neg(x) + 1] ELSE b[x + 1]]
SOnNumber(s, bits) == Canon(SOnBits(s, Pad(bits, Max2(Len(s), Len(bits)))))
\* the permutation of hypercube vertices
SSchoute(s) ==
  LET n == Len(s) IN Periodic([x \in 1 .. P2(n) |-> Num(SOnBits(s, BitsN(x - 1, n)))])

(* --- denotation -------------------------------------------------------------- *)
(* kinds: "valneg", "keyneg" (d.set, d.perm), "sequence" (d.seq), "matrix"        *)
(* (d.matrix), "schoute" (d.perm: one period of the vertex permutation)           *)

Extend(seq, n) == [i \in 1 .. n |-> IF i <= Len(seq) THEN seq[i] ELSE i - 1]
TopOf(S) == IF S = {} THEN 0 ELSE MaxOf(S) + 1

ByVal(S, seq) ==
  LET p == Extend(seq, Max2(Len(seq), TopOf(S))) IN TrimSig([i \in 1 .. Len(p) |-> SignedBy(p[i], p[i] \in S)])
ByKey(S, seq) ==
  LET p == Extend(seq, Max2(Len(seq), TopOf(S))) IN TrimSig([i \in 1 .. Len(p) |-> SignedBy(p[i], (i - 1) \in S)])

IsVertexPerm(seq) ==   \* of a signed permutation of n places, where Len(seq) = 2^n
  /\ \E n \in 0 .. 10 : Len(seq) = P2(n)
  /\ IsPermSeq(seq)
  /\ LET n == CHOOSE n \in 0 .. 10 : Len(seq) = P2(n)
     IN  \A i \in Below(n) : \E j \in Below(n), c \in {0, 1} : \A x \in Below(P2(n)) : Bit(seq[x + 1], i) = (Bit(x, j) + c) % 2

VertexSeq(seq) ==
  LET n == CHOOSE n \in 0 .. 10 : Len(seq) = P2(n)
      start == seq[1]
      \* place j goes to the digit that changes when digit j changes
      image(j) == CHOOSE i \in Below(n) : Bit(seq[P2(j) + 1], i) # Bit(start, i)
  IN  TrimSig([j \in 1 .. n |-> SignedBy(image(j - 1), Bit(start, image(j - 1)) = 1)])

AdmissibleSig(d) ==
  CASE d.kind = "sequence" -> IsSigSeq(d.seq)
    [] d.kind = "matrix" -> IsSMatrix(d.matrix)
    [] d.kind = "schoute" -> IsVertexPerm(d.perm)
    [] d.kind \in {"valneg", "keyneg"} -> IsPermSeq(d.perm) /\ \A x \in Ran(d.set) : x >= 0
    [] d.kind = "malformed" -> FALSE

DenotedSig(d) ==
  CASE d.kind = "sequence" -> TrimSig(d.seq)
    [] d.kind = "matrix" -> TrimSig(MatrixSeq(d.matrix))
    [] d.kind = "schoute" -> VertexSeq(d.perm)
    [] d.kind = "valneg" -> ByVal(Ran(d.set), d.perm)
    [] d.kind = "keyneg" -> ByKey(Ran(d.set), d.perm)

CharsLiteral(x) == IF x < 0 THEN <<"~">> \o CharsNat(Neg(x)) ELSE CharsNat(x)
SigText(s, open, close) ==
  <<open>> \o Join([i \in 1 .. Len(s) |-> CharsLiteral(s[i])], <<",", " ">>) \o <<close>>

SigSeqs(n) == {s \in [1 .. n -> (-n) .. (n - 1)] : IsSigSeq(s)}
=============================================================================
