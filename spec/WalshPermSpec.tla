--------------------------- MODULE WalshPermSpec ---------------------------
(* Walsh permutations: invertible binary matrices, acting linearly on the    *)
(* digits of the naturals.  A value is the sequence of columns as numbers    *)
(* (the compression vector), without trailing identity dimensions.           *)
EXTENDS PermSpec, Bitwise

\* image of x: the exclusive or of the columns of its digits
RECURSIVE WImg(_, _, _)
WImg(w, x, i) == IF i > Len(w) THEN x * P2(Len(w))   \* higher digits stay
                 ELSE (IF x % 2 = 1 THEN w[i] ELSE 0) ^^ WImg(w, x \div 2, i + 1)
WAt(w, x) == WImg(w, x, 1)

WSeq(w, n) == [x \in 1 .. P2(n) |-> WAt(w, x - 1)]

WExtend(w, n) == [i \in 1 .. n |-> IF i <= Len(w) THEN w[i] ELSE P2(i - 1)]

RECURSIVE WTrim(_)
WTrim(w) ==
  LET n == Len(w)
  IN  IF n = 0 THEN w
      ELSE IF w[n] = P2(n - 1) /\ \A i \in 1 .. (n - 1) : Bit(w[i], n - 1) = 0 THEN WTrim(SubSeq(w, 1, n - 1))
      ELSE w

InRange(w) == \A i \in 1 .. Len(w) : w[i] >= 0 /\ w[i] < P2(Len(w))
Invertible(w) == InRange(w) /\ Cardinality(Ran(WSeq(w, Len(w)))) = P2(Len(w))

\* rows as numbers
Rows(w) == [r \in 1 .. Len(w) |-> Num([c \in 1 .. Len(w) |-> Bit(w[c], r - 1)])]
WMatrix(w) == [r \in 1 .. Len(w) |-> [c \in 1 .. Len(w) |-> Bit(w[c], r - 1)]]
Columns(m) == [c \in 1 .. Len(m) |-> Num([r \in 1 .. Len(m) |-> m[r][c]])]

IsBinarySquare(m) == \A r \in 1 .. Len(m) : Len(m[r]) = Len(m) /\ Ran(m[r]) \subseteq {0, 1}

WMul(v, w) ==
  LET n == Max2(Len(v), Len(w))
      x == WExtend(v, n)
      y == WExtend(w, n)
  IN  WTrim([i \in 1 .. n |-> WAt(x, y[i])])
WInv(w) == [i \in 1 .. Len(w) |-> CHOOSE x \in Below(P2(Len(w))) : WAt(w, x) = P2(i - 1)]
WTranspose(w) == Rows(w)
RECURSIVE WPow(_, _)
WPow(w, k) ==
  IF k = 0 THEN <<>>
  ELSE IF k < 0 THEN WPow(WInv(w), -k)
  ELSE LET h == WPow(w, k \div 2) IN IF Odd(k) THEN WMul(w, WMul(h, h)) ELSE WMul(h, h)

WPerm(w) == Periodic(WSeq(w, Len(w)))

\* integer determinant of a 0-1 matrix (expansion along the first row)
Minor(m, c) == [r \in 1 .. (Len(m) - 1) |-> Drop(m[r + 1], c)]
RECURSIVE Det(_)
Det(m) == IF m = <<>> THEN 1
          ELSE SumSeq([c \in 1 .. Len(m) |-> IF m[1][c] = 0 THEN 0
                                             ELSE (IF Odd(c) THEN 1 ELSE -1) * m[1][c] * Det(Minor(m, c))])

\* the place of the greatest number of n digits
FullPlace(w, n) == CHOOSE x \in Below(P2(n)) : WAt(WExtend(w, n), x) = P2(n) - 1

IsPowerOf2(n) == \E k \in 0 .. 12 : n = P2(k)
Log2(n) == CHOOSE k \in 0 .. 12 : n = P2(k)
LinearSeq(seq) ==
  /\ IsPowerOf2(Len(seq))
  /\ IsPermSeq(seq)
  /\ LET n == Log2(Len(seq))
         w == [i \in 1 .. n |-> seq[P2(i - 1) + 1]]
     IN  \A x \in Below(Len(seq)) : seq[x + 1] = WAt(w, x)
SeqColumns(seq) == LET n == Log2(Len(seq)) IN [i \in 1 .. n |-> seq[P2(i - 1) + 1]]

\* a permutation is extended to the next power of two if it is finite
Completed(p) ==
  IF p.per > 0 THEN p.seq
  ELSE LET n == MinOf({k \in 0 .. 12 : P2(k) >= Len(p.seq)}) IN Prefix(p, P2(n))

(* --- denotation: "vector" (d.vector), "matrix" (d.matrix), "list" (d.seq: a    *)
(* sequence of length 2^n), "perm" (d.perm: description of a permutation)        *)
AdmissibleWalsh(d) ==
  CASE d.kind = "vector" -> Invertible(d.vector)
    [] d.kind = "matrix" -> IsBinarySquare(d.matrix) /\ Invertible(Columns(d.matrix))
    [] d.kind = "list" -> LinearSeq(d.seq)
    [] d.kind = "perm" -> LinearSeq(Completed(DenotedPerm(d.perm)))
    [] d.kind = "malformed" -> FALSE
DenotedWalsh(d) ==
  CASE d.kind = "vector" -> WTrim(d.vector)
    [] d.kind = "matrix" -> WTrim(Columns(d.matrix))
    [] d.kind = "list" -> WTrim(SeqColumns(d.seq))
    [] d.kind = "perm" -> WTrim(SeqColumns(Completed(DenotedPerm(d.perm))))

PrintedWalsh(w) ==
  LET head == <<"W", "a", "l", "s", "h", "P", "e", "r", "m", "(">>
  IN  IF w = <<>> THEN head \o <<")">> ELSE head \o CharsList(w) \o <<")">>

Vectors(n) == {w \in [1 .. n -> Below(P2(n))] : Invertible(w)}
=============================================================================
