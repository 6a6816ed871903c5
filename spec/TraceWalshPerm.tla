--------------------------- MODULE TraceWalshPerm ---------------------------
EXTENDS WalshPermSpec, TraceBase

Same(x, p) == x.per = p.per /\ x.seq = p.seq
\* a Walsh permutation as permutation of the naturals, period 0 if neutral
AsPerm(w) == WPerm(w)

FailMake(a, r) ==
  LET w == DenotedWalsh(a)
      d == Len(w)
  IN  Fail(r.vector = w, "vector")
      \cup Fail(r.rows = Rows(w), "rows")
      \cup Fail(r.matrix = WMatrix(w), "matrix")
      \cup Fail(r.degree = d, "degree")
      \cup Fail(r.neutral = (w = <<>>), "neutral")
      \cup Fail(Same(r.perm, AsPerm(w)), "perm")
      \cup Fail(r.moved = Asc(MovedIn(AsPerm(w).seq)), "moved")
      \cup Fail(r.cycles = Cycles(AsPerm(w)), "cycles")
      \cup Fail(r.order = OrderBits(AsPerm(w)), "order")
      \cup Fail(r.determinant = Det(WMatrix(w)), "determinant")
      \cup Fail(r.distance = P2(d) - 1 - FullPlace(w, d), "distance")
      \cup Fail(r.printed = PrintedWalsh(w), "printed")
      \cup Fail(r.rebuilt = <<TRUE, TRUE, TRUE, TRUE>>, "rebuilt")
      \cup Fail(r.parity = Cardinality(InversionsOf(AsPerm(w).seq)) % 2, "parity")

\* what is asked for at a requested degree; rejected if that is too small
FailDegree(a, r) ==
  LET w == DenotedWalsh(a.d)
      ok == a.n >= Len(w)
      x == WExtend(w, a.n)
      opt(v) == IF ok THEN <<v>> ELSE <<>>
      p == AsPerm(w)
  IN  Fail(r.vector = opt(x), "vector")
      \cup Fail(r.rows = opt(Rows(x)), "rows")
      \cup Fail(r.matrix = opt(WMatrix(x)), "matrix")
      \cup Fail(r.sequence = opt(WSeq(x, a.n)), "sequence")
      \cup Fail(r.by_length = opt(WSeq(x, a.n)), "by_length")
      \cup Fail(r.cycles = opt(IF w = <<>> THEN <<>> ELSE CyclesUpTo(p, P2(a.n))), "cycles")
      \cup Fail(r.pattern = opt(FullPlace(w, a.n)), "pattern")

FailEqual(a, r) ==
  LET v == DenotedWalsh(a.x)
      w == DenotedWalsh(a.y)
  IN  Fail(r.eq = (v = w), "eq")
      \cup Fail(r.ne = (v # w), "ne")
      \cup Fail(r.keys = Cardinality({v, w}), "keys")

FailPlain(a, r) ==    \* comparison with a permutation, in both orders
  LET same == AsPerm(DenotedWalsh(a.x)) = DenotedPerm(a.y)
  IN  Fail(r.eq = <<same, same>>, "eq")
      \cup Fail(r.keys = (IF same THEN 1 ELSE 2), "keys")

FailMul(a, r) ==
  LET v == DenotedWalsh(a.x)
      w == DenotedWalsh(a.y)
  IN  Fail(r.product = WMul(v, w), "product")
      \cup Fail(Same(r.perm, AsPerm(WMul(v, w))), "perm")
      \cup Fail(r.after = <<v, w>>, "after")

FailPower(a, r) ==
  LET w == DenotedWalsh(a.x)
  IN  Fail(r.inverse = WInv(w), "inverse")
      \cup Fail(Same(r.inverse_perm, Inv(AsPerm(w))), "inverse_perm")
      \cup Fail(r.transpose = WTranspose(w), "transpose")
      \cup Fail(r.powers = [i \in 1 .. Len(a.exponents) |-> WPow(w, a.exponents[i])], "powers")
      \cup Fail(r.mirrored = WInv(WTranspose(w)), "mirrored")

FailMixed(a, r) ==    \* products with a permutation
  LET w == AsPerm(DenotedWalsh(a.x))
      p == DenotedPerm(a.y)
  IN  IF ~Compatible(w, p) THEN Fail(r.left = <<>>, "left") \cup Fail(r.right = <<>>, "right")
      ELSE Fail(r.left # <<>> /\ Same(r.left[1], Mul(w, p)), "left")
           \cup Fail(r.right # <<>> /\ Same(r.right[1], Mul(p, w)), "right")

Failing(e) ==
  IF e.err # <<>> THEN Unreadable(e)
  ELSE CASE e.op = "make" -> FailMake(e.a, e.r)
         [] e.op = "admit" -> Fail(e.r.rejected = ~AdmissibleWalsh(e.a), "rejected")
         [] e.op = "degree" -> FailDegree(e.a, e.r)
         [] e.op = "equal" -> FailEqual(e.a, e.r)
         [] e.op = "plain" -> FailPlain(e.a, e.r)
         [] e.op = "mul" -> FailMul(e.a, e.r)
         [] e.op = "power" -> FailPower(e.a, e.r)
         [] e.op = "mixed" -> FailMixed(e.a, e.r)
         [] OTHER -> {"unknown operation"}

TraceNext == pos < Len(Trace) /\ Judge(Failing(Trace[pos + 1]))
=============================================================================
