----------------------------- MODULE TraceBoolf -----------------------------
EXTENDS BoolfSpec, TraceBase

Given(x) == Listed(x.tt, x.at)

(* --- F01 ------------------------------------------------------------------ *)

FailMake(a, r) ==
  LET f == DenotedFn(a)
      n == Len(f.at)
  IN  Fail(r.fn = f, "fn")
      \cup Fail(r.valency = n, "valency")
      \cup Fail(r.adicity = Adicity(f), "adicity")
      \cup Fail(r.constant = (n = 0), "constant")
      \cup Fail(r.is_root = (f.at = Upto(n)), "is_root")
      \cup Fail(r.root = Root(f), "root")
      \cup Fail(r.spread = [i \in 1 .. n |-> f.at[i] - i + 1], "spread")
      \cup Fail(r.inflated = FALSE, "inflated")
      \cup Fail(r.printed = f, "printed")

FailSame(a, r) ==
  LET f == DenotedFn(a.x)
      g == DenotedFn(a.y)
      eq == f = g
  IN  Fail(r.eq = <<eq, eq>>, "eq")
      \cup Fail(r.ne = ~eq, "ne")
      \cup Fail(r.hash_equal \/ ~eq, "hash_equal")
      \cup Fail(r.keys = (IF eq THEN 1 ELSE 2), "keys")
      \cup Fail(r.order[1] + r.order[2] = (IF eq THEN 0 ELSE 1), "order")
      \cup Fail(r.weak = <<r.order[1] + (IF eq THEN 1 ELSE 0), r.order[2] + (IF eq THEN 1 ELSE 0)>>, "weak")
      \cup Fail(r.after = <<f, g>>, "after")

(* --- F02 ------------------------------------------------------------------ *)

SpotAtoms(f) == LET n == Len(f.at) S == SelectSeq(Upto(P2(n)), LAMBDA k : f.tt[k + 1] = 1)
                IN  [i \in 1 .. Len(S) |-> <<S[i], Digits(S[i], n)>>]

FailTable(a, r) ==
  LET f == Given(a.f)
      n == Len(f.at)
      t == TT(f, a.n)
      at == Asc(Ran(a.at))
      own == Own(f)
      ls == LayeredSpots(f)
      ws == SelectSeq(Upto(n + 1), LAMBDA w : ls[w + 1] # <<>>)
  IN  Fail(r.tt = t, "tt")
      \cup Fail(r.own = own, "own")
      \cup Fail(r.over = Table(f, at), "over")
      \cup Fail(r.digits = [i \in 1 .. Len(a.keys) |-> Value(f, Ran(a.keys[i]))], "digits")
      \cup Fail(r.inflated = Asc(Ones(Table(f, at))), "inflated")
      \cup Fail(r.spots = Asc(Spots(f)), "spots")
      \cup Fail(r.spot_atoms = SpotAtoms(f), "spot_atoms")
      \cup Fail(r.by_weight = [i \in 1 .. Len(ws) |-> <<ws[i], SelectSeq(SpotAtoms(f), LAMBDA s : Len(s[2]) = ws[i])>>], "by_weight")
      \cup Fail(r.layered_spots = ls, "layered_spots")
      \cup Fail(r.weights = ws, "weights")
      \cup Fail(r.layered_tt = Layered(f.tt), "layered_tt")
      \cup Fail(r.layered_weight = [w \in 1 .. n + 1 |-> Len(ls[w])], "layered_weight")
      \cup Fail(r.weight_fract[1] * P2(n) = r.weight_fract[2] * Weight(f.tt) /\ r.weight_fract[2] > 0, "weight_fract")
      \cup Fail(r.value_fract = <<>>
                \/ /\ MulBits(r.value_fract[1], Repeat(1, Len(own))) = MulBits(r.value_fract[2], Canon(Rev(own)))
                   /\ r.value_fract[2] # <<>>, "value_fract")
      \cup Fail(r.complement = Neg(f), "complement")
      \cup Fail(r.reverse = [f EXCEPT !.tt = Rev(f.tt)], "reverse")
      \cup Fail(r.root = Root(f), "root")
      \cup Fail(r.spread = [i \in 1 .. n |-> f.at[i] - i + 1], "spread")
      \cup Fail(r.atoms_int = BitsOfSet(Ran(f.at), Adicity(f)), "atoms_int")
      \cup Fail(r.sierpinski = [k \in 1 .. P2(n) |-> Canon(BitsOfSet({f.at[i + 1] : i \in Ran(Digits(k - 1, n))}, Adicity(f)))], "sierpinski")
      \cup Fail(r.rebuilt = <<f, f, f>>, "rebuilt")

FailFar(a, r) ==
  LET f == Given(a.f)
      n == Len(f.at)
  IN  Fail(r.over = Table(f, Asc(Ran(a.at))), "over")
      \cup Fail(r.digits = [i \in 1 .. Len(a.keys) |-> Value(f, Ran(a.keys[i]))], "digits")
      \cup Fail(r.atoms_int = BitsOfSet(Ran(f.at), Adicity(f)), "atoms_int")
      \cup Fail(r.sierpinski = [k \in 1 .. P2(n) |-> Canon(BitsOfSet({f.at[i + 1] : i \in Ran(Digits(k - 1, n))}, Adicity(f)))], "sierpinski")

TooSmall(a) == LET f == Given(a.f) IN
  IF a.at # <<>> THEN ~(Ran(f.at) \subseteq Ran(a.at[1])) ELSE a.n < Adicity(f)

(* --- F03 ------------------------------------------------------------------ *)

FailPair(a, r) ==
  LET f == Given(a.x)
      g == Given(a.y)
      le == Implies(f, g)
      ge == Implies(g, f)
  IN  Fail(r.conj = <<Conj(f, g), Conj(f, g)>>, "conj")
      \cup Fail(r.disj = <<Disj(f, g), Disj(f, g)>>, "disj")
      \cup Fail(r.xor = <<Plus(f, g), Plus(f, g)>>, "xor")
      \cup Fail(r.inv = Neg(f), "inv")
      \cup Fail(r.le = le, "le")
      \cup Fail(r.ge = ge, "ge")
      \cup Fail(r.lt = (le /\ ~ge), "lt")
      \cup Fail(r.gt = (ge /\ ~le), "gt")
      \cup Fail(r.after = <<f, g>>, "after")

(* --- F04 ------------------------------------------------------------------ *)

FailApply(a, r) ==
  LET f == Given(a.f) IN
  Fail(r.fn = Substitute(f, a.lits), "fn")
  \cup Fail(r.tt = Substitute(f, a.lits).tt, "tt")
  \cup Fail(r.after = f, "after")
ApplyRejected(a) == LET f == Given(a.f) IN ~(Len(a.lits) = Len(f.at) /\ Distinct(a.lits))

InverseSeq(s) == [i \in 1 .. Len(s) |-> CHOOSE j \in Below(Len(s)) : s[j + 1] = i - 1]
FailAct(a, r) ==
  LET f == Given(a.f) IN
  Fail(r.fn = ActOn(f, a.s), "fn")
  \cup Fail(r.forms = [i \in 1 .. Len(r.forms) |-> ActOn(f, a.s)], "forms")
  \cup Fail(r.then = ActOn(ActOn(f, a.s), a.t), "then")
  \cup Fail(r.product = ActOn(f, After(a.s, a.t)), "product")
  \cup Fail(r.undone = f, "undone")
FailTablePerm(a, r) == Fail(r.tt = TT(ActOn(Given(a.f), InverseSeq(a.s)), a.n), "tt")
FailTableNeg(a, r) == Fail(r.tt = [i \in 1 .. 3 |-> TT(ActOn(Given(a.f), a.s), a.n)], "tt")
FailColors(a, r) ==
  LET t == TT(ActOn(Given(a.f), a.s), a.n) IN Fail(r.places = <<Asc(Ones(t)), Asc(Ones(Not(t)))>>, "places")

FailVal(a, r) ==
  LET f == Given(a.f)
      n == Len(f.at)
      At(col) == f.tt[1 + Num(col)]
  IN  Fail(r.single = [i \in 1 .. Len(a.cols) |-> At(a.cols[i])], "single")
      \cup Fail(r.list = [i \in 1 .. Len(a.cols) |-> At(a.cols[i])], "list")
      \cup Fail(r.vectors = [i \in 1 .. Len(a.cols) |-> At(a.cols[i])], "vectors")

FailSpread(a, r) ==
  Fail(r.lits = [i \in 1 .. Len(a.s) |-> LET x == AbsLit(a.s[i]) + a.spread[AbsLit(a.s[i]) + 1] IN IF a.s[i] < 0 THEN -x - 1 ELSE x], "lits")

(* --- F05 ------------------------------------------------------------------ *)

FailZhe(a, r) ==
  LET f == Given(a.f)
      t == TT(f, a.n)
      z == Zhegalkin(t)
      w == OfTable(z)
  IN  Fail(r.zhe = ZheIndex(f), "zhe")
      \cup Fail(r.twin = w, "twin")
      \cup Fail(r.own_twin = OfTable(Zhegalkin(Own(f))), "own_twin")
      \cup Fail(r.again = f, "again")
      \cup Fail(r.of_zhe = f, "of_zhe")
FailTableZhe(a, r) ==
  LET z == Zhegalkin(a.tt) IN
  CASE a.form = "int" -> Fail(r.twin = Canon(z), "twin")
    [] a.form = "vector" -> Fail(r.twin = z, "twin")
    [] a.form = "set" -> Fail(r.twin = Asc(Ones(z)), "twin")

FailSierpinski(a, r) ==
  LET rest == SelectSeq(Upto(a.n), LAMBDA i : Bit(a.index, i) = 0)
      z == Zhegalkin(a.small)
  IN  Fail(r.twin = [k \in 1 .. P2(a.n) |-> z[1 + Gather(k - 1, rest)]], "twin")
FailPartition(a, r) ==
  LET rest == SelectSeq(Upto(a.n), LAMBDA i : Bit(a.index, i) = 0)
      Block(j) == {k \in Below(P2(a.n)) : Gather(k, rest) = j}
  IN  Fail(SetsOf(r.blocks) = (IF a.index = 0 THEN {} ELSE {Block(j) : j \in Below(P2(Len(rest)))}), "blocks")
FailArity(a, r) == Fail(r.arity = ArityOf(a.z), "arity") \cup Fail(r.length = P2(ArityOf(a.z)), "length")

Failing(e) ==
  IF e.err # <<>> THEN Unreadable(e)
  ELSE CASE e.op = "make" -> FailMake(e.a, e.r)
         [] e.op = "admit" -> Fail(e.r.rejected = ~DenotesFunction(e.a), "rejected")
         [] e.op = "same" -> FailSame(e.a, e.r)
         [] e.op = "table" -> FailTable(e.a, e.r)
         [] e.op = "far" -> FailFar(e.a, e.r)
         [] e.op = "too small" -> Fail(e.r.rejected = TooSmall(e.a), "rejected")
         [] e.op = "pair" -> FailPair(e.a, e.r)
         [] e.op = "apply" -> FailApply(e.a, e.r)
         [] e.op = "apply?" -> Fail(e.r.rejected = ApplyRejected(e.a), "rejected")
         [] e.op = "act" -> FailAct(e.a, e.r)
         [] e.op = "permute table" -> FailTablePerm(e.a, e.r)
         [] e.op = "negate in table" -> FailTableNeg(e.a, e.r)
         [] e.op = "colors" -> FailColors(e.a, e.r)
         [] e.op = "val" -> FailVal(e.a, e.r)
         [] e.op = "spread" -> FailSpread(e.a, e.r)
         [] e.op = "zhe" -> FailZhe(e.a, e.r)
         [] e.op = "zhe of table" -> FailTableZhe(e.a, e.r)
         [] e.op = "sierpinski" -> FailSierpinski(e.a, e.r)
         [] e.op = "partition" -> FailPartition(e.a, e.r)
         [] e.op = "arity" -> FailArity(e.a, e.r)
         [] OTHER -> {"unknown operation"}

TraceNext == pos < Len(Trace) /\ Judge(Failing(Trace[pos + 1]))
=============================================================================
