----------------------------- MODULE TracePerm -----------------------------
EXTENDS PermSpec, TraceBase

\* a recorded permutation is [per, seq]
Same(x, p) == x.per = p.per /\ x.seq = p.seq

FailMake(a, r) ==
  LET p == DenotedPerm(a)
      n == PermLength(p)
  IN  Fail(Same(r.perm, p), "perm")
      \cup Fail(r.neutral = (p = Neutral), "neutral")
      \cup Fail(r.length = n, "length")
      \cup Fail(r.moved = Asc(MovedIn(p.seq)), "moved")
      \cup Fail(r.mapping = [i \in 1 .. Len(r.mapping) |-> <<Asc(MovedIn(p.seq))[i], At(p, Asc(MovedIn(p.seq))[i])>>]
                /\ Len(r.mapping) = Cardinality(MovedIn(p.seq)), "mapping")
      \cup Fail(r.cycles = Cycles(p), "cycles")
      \cup Fail(r.items = Prefix(p, Len(r.items)) /\ Len(r.items) >= 2 * n, "items")
      \cup Fail(r.printed = PrintedPerm(p), "printed")
      \cup Fail(SetsOf(r.cycle_blocks) = {Ran(Cycles(p)[i]) : i \in DOMAIN Cycles(p)}
                /\ Len(r.cycle_blocks) = Len(Cycles(p)), "cycle_blocks")
      \cup Fail(r.sequence = p.seq, "sequence")

FailSequence(a, r) ==
  LET p == DenotedPerm(a.d)
      ok == IF p.per = 0 THEN a.n >= Len(p.seq) ELSE a.n % p.per = 0
  IN  Fail(r.sequence = (IF ok THEN <<Prefix(p, a.n)>> ELSE <<>>), "sequence")
      \cup Fail(r.cycles = (IF p.per # 0 /\ ok THEN <<CyclesUpTo(p, a.n)>> ELSE <<>>), "cycles")

FailSlice(a, r) ==
  LET p == DenotedPerm(a.d)
      count == IF a.stop <= a.start THEN 0 ELSE (a.stop - a.start + a.step - 1) \div a.step
  IN  Fail(r.slice = [i \in 1 .. count |-> At(p, a.start + (i - 1) * a.step)], "slice")

FailEqual(a, r) ==
  LET p == DenotedPerm(a.x)
      q == DenotedPerm(a.y)
  IN  Fail(r.eq = (p = q), "eq")
      \cup Fail(r.ne = (p # q), "ne")
      \cup Fail(r.keys = Cardinality({p, q}), "keys")

FailMul(a, r) ==
  LET p == DenotedPerm(a.x)
      q == DenotedPerm(a.y)
  IN  Fail(Same(r.after[1], p) /\ Same(r.after[2], q), "after")
      \cup (IF ~Compatible(p, q) THEN Fail(r.product = <<>>, "mixed product")
            ELSE Fail(r.product # <<>> /\ Same(r.product[1], Mul(p, q)), "product")
                 \cup Fail(r.twin # <<>> => r.twin[1], "twin"))

FailPower(a, r) ==
  LET p == DenotedPerm(a.x)
  IN  Fail(Same(r.inverse, Inv(p)), "inverse")
      \cup Fail(Len(r.powers) = Len(a.exponents)
                /\ \A i \in DOMAIN r.powers : Same(r.powers[i], Power(p, a.exponents[i])), "powers")
      \cup Fail(r.order = OrderBits(p), "order")

FailApply(a, r) ==
  LET p == DenotedPerm(a.x)
      q == DenotedPerm(a.y)
  IN  Fail(r.first = OnVector(q, a.v), "first")
      \cup Fail(r.both = OnVector(p, OnVector(q, a.v)), "both")
      \cup Fail(r.product = OnVector(p, OnVector(q, a.v)), "product")
      \cup Fail(r.back = a.v, "back")
      \cup Fail(r.vector = a.v, "vector")

FailRank(a, r) ==
  LET p == Finite(a.seq)
  IN  Fail(r.left = LeftRank(p.seq), "left")
      \cup Fail(r.right = RightRank(p.seq), "right")
      \cup Fail(Same(r.from_left, p), "from_left")
      \cup Fail(r.parity = Cardinality(InversionsOf(p.seq)) % 2, "parity")
      \cup Fail({<<x[1], x[2]>> : x \in Ran(r.inversions)} = InversionsOf(p.seq)
                /\ Len(r.inversions) = Cardinality(InversionsOf(p.seq)), "inversions")

FailCounts(a, r) ==
  LET s == a.seq
  IN  Fail(r.lic = LeftCount(s), "lic")
      \cup Fail(r.ric = RightCount(s), "ric")
      \cup Fail(r.invec = InversionVector(s), "invec")
      \cup Fail(r.from_lic = s, "from_lic")
      \cup Fail(r.from_ric = s, "from_ric")
      \cup Fail(r.from_set = Finite(s).seq, "from_set")
      \cup Fail(r.set_left = LeftCount(Finite(s).seq), "set_left")
      \cup Fail(Pad(r.set_right, Len(Finite(s).seq)) = RightCount(Finite(s).seq)
                /\ Len(r.set_right) <= Len(Finite(s).seq), "set_right")

FailNumber(a, r) ==     \* a.n bits of the number
  Fail(FactVal(r.digits, 0) = a.n, "digits")
  \cup Fail(\A i \in DOMAIN r.digits : r.digits[i] >= 0 /\ r.digits[i] < i, "digit range")
  \cup Fail(r.perm.per = 0 /\ IsPermSeq(r.perm.seq) /\ LeftRank(r.perm.seq) = a.n, "perm")
  \cup Fail(r.back = a.n, "back")

FailEnumeration(a, r) ==
  Fail(Ran(r.perms) = PermSeqs(a.n) /\ IsInjectiveSeq(r.perms), "complete")
  \cup Fail(\A i \in 1 .. (Len(r.perms) - 1) : RevColexLess(r.perms[i], r.perms[i + 1]), "order")
  \cup Fail(\A i \in DOMAIN r.perms : IsPermSeq(r.perms[i]) => LeftRank(r.perms[i]) = BitsOf(i - 1), "rank")

FailCoset(a, r) ==
  LET K == Ones(BitsOf(a.key))
      V == Ones(BitsOf(a.val))
      good == {s \in PermSeqs(a.n) : {s[k + 1] : k \in K} = V}
  IN  Fail(Ran(r.ranks) = {LeftRank(s) : s \in good} /\ Len(r.ranks) = Cardinality(good), "ranks")

FailSchoute(a, r) ==
  LET p == Finite(a.seq)
  IN  Fail(Same(r.schoute, SchoutePerm(p)), "schoute")

Failing(e) ==
  IF e.err # <<>> THEN Unreadable(e)
  ELSE CASE e.op = "make" -> FailMake(e.a, e.r)
         [] e.op = "admit" -> Fail(e.r.rejected = ~AdmissiblePerm(e.a), "rejected")
         [] e.op = "sequence" -> FailSequence(e.a, e.r)
         [] e.op = "slice" -> FailSlice(e.a, e.r)
         [] e.op = "equal" -> FailEqual(e.a, e.r)
         [] e.op = "mul" -> FailMul(e.a, e.r)
         [] e.op = "power" -> FailPower(e.a, e.r)
         [] e.op = "apply" -> FailApply(e.a, e.r)
         [] e.op = "rank" -> FailRank(e.a, e.r)
         [] e.op = "counts" -> FailCounts(e.a, e.r)
         [] e.op = "number" -> FailNumber(e.a, e.r)
         [] e.op = "enumeration" -> FailEnumeration(e.a, e.r)
         [] e.op = "coset" -> FailCoset(e.a, e.r)
         [] e.op = "schoute" -> FailSchoute(e.a, e.r)
         [] OTHER -> {"unknown operation"}

TraceNext == pos < Len(Trace) /\ Judge(Failing(Trace[pos + 1]))
=============================================================================
