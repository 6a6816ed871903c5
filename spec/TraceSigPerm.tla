---------------------------- MODULE TraceSigPerm ----------------------------
EXTENDS SigPermSpec, TraceBase

Same(x, p) == x.per = p.per /\ x.seq = p.seq

FailMake(a, r) ==
  LET s == DenotedSig(a)
      n == Len(s)
  IN  Fail(r.sequence = s, "sequence")
      \cup Fail(r.items = s, "items")
      \cup Fail(r.length = n, "length")
      \cup Fail(r.flags = <<ValNeg(s) = {}, MovedIn(AbsSeq(s)) = {}, s = <<>>>>, "flags")
      \cup Fail(r.binv = BitsOfSet(ValNeg(s), n), "binv")
      \cup Fail(Same(r.perm, Finite(AbsSeq(s))), "perm")
      \cup Fail(r.longer = SPrefix(s, n + 2), "longer")
      \cup Fail(r.matrix = SMatrix(s, n), "matrix")
      \cup Fail(r.bigger = SMatrix(s, n + 1), "bigger")
      \cup Fail(r.valneg_index = Canon(BitsOfSet(ValNeg(s), n)), "valneg_index")
      \cup Fail(r.keyneg_index = Canon(BitsOfSet(KeyNeg(s), n)), "keyneg_index")
      \cup Fail(r.perm_index = LeftRank(AbsSeq(s)), "perm_index")
      \cup Fail(r.pair = <<Canon(BitsOfSet(ValNeg(s), n)), LeftRank(AbsSeq(s))>>, "pair")
      \cup Fail(r.text = <<SigText(s, "[", "]"), SigText(SPrefix(s, n + 1), "(", ")")>>, "text")
      \cup Fail(r.printed = <<"S", "i", "g", "P", "e", "r", "m", "(", "s", "e", "q", "u", "e", "n", "c", "e", "=">>
                            \o SigText(s, "[", "]") \o <<")">>, "printed")
      \cup Fail(r.rebuilt = <<TRUE, TRUE, TRUE, TRUE, TRUE, TRUE>>, "rebuilt")
      \cup Fail(r.too_short, "too_short")

FailSchoute(a, r) ==
  LET s == DenotedSig(a)
  IN  Fail(Same(r.schoute, SSchoute(s)), "schoute")
      \cup Fail(r.back = s, "back")

FailEqual(a, r) ==
  LET s == DenotedSig(a.x)
      t == DenotedSig(a.y)
  IN  Fail(r.eq = (s = t), "eq")
      \cup Fail(r.ne = (s # t), "ne")
      \cup Fail(r.keys = Cardinality({s, t}), "keys")

FailUnsigned(a, r) ==   \* comparison with a permutation, in both orders
  LET s == DenotedSig(a.x)
      p == DenotedPerm(a.y)
      same == ValNeg(s) = {} /\ Finite(s) = p
  IN  Fail(r.eq = <<same, same>>, "eq")
      \cup Fail(r.keys = (IF same THEN 1 ELSE 2), "keys")

FailMul(a, r) ==
  LET s == DenotedSig(a.x)
      t == DenotedSig(a.y)
      n == Max2(Len(s), Len(t))
  IN  Fail(r.product = SMul(s, t), "product")
      \cup Fail(r.matrix = MatMul(SMatrix(s, n), SMatrix(t, n)), "matrix")
      \cup Fail(r.inverse = SInv(s), "inverse")
      \cup Fail(r.inverse_matrix = Transposed(SMatrix(s, Len(s))), "inverse_matrix")
      \cup Fail(r.after = <<s, t>>, "after")
      \cup Fail(r.twin, "twin")

FailAct(a, r) ==
  LET s == DenotedSig(a.x)
      t == DenotedSig(a.y)
  IN  Fail(r.first = SOnVector(t, a.v), "first")
      \cup Fail(r.both = SOnVector(s, SOnVector(t, a.v)), "both")
      \cup Fail(r.product = SOnVector(SMul(s, t), a.v), "product")
      \cup Fail(r.number = SOnNumber(t, a.n), "number")
      \cup Fail(r.numbers = SOnNumber(s, SOnNumber(t, a.n)), "numbers")
      \cup Fail(r.number_product = SOnNumber(SMul(s, t), a.n), "number_product")
      \cup Fail(r.vector = a.v, "vector")

FailVertices(a, r) ==
  LET s == DenotedSig(a.x)
      t == DenotedSig(a.y)
  IN  Fail(Same(r.of_product, Mul(SSchoute(s), SSchoute(t))), "of_product")
      \cup Fail(Same(r.product_of, SSchoute(SMul(s, t))), "product_of")
      \cup Fail(Same(r.of_inverse, Inv(SSchoute(s))), "of_inverse")

Failing(e) ==
  IF e.err # <<>> THEN Unreadable(e)
  ELSE CASE e.op = "make" -> FailMake(e.a, e.r)
         [] e.op = "admit" -> Fail(e.r.rejected = ~AdmissibleSig(e.a), "rejected")
         [] e.op = "schoute" -> FailSchoute(e.a, e.r)
         [] e.op = "equal" -> FailEqual(e.a, e.r)
         [] e.op = "unsigned" -> FailUnsigned(e.a, e.r)
         [] e.op = "mul" -> FailMul(e.a, e.r)
         [] e.op = "act" -> FailAct(e.a, e.r)
         [] e.op = "vertices" -> FailVertices(e.a, e.r)
         [] OTHER -> {"unknown operation"}

TraceNext == pos < Len(Trace) /\ Judge(Failing(Trace[pos + 1]))
=============================================================================
