----------------------------- MODULE TraceBinv -----------------------------
EXTENDS BinvSpec, TraceBase

FailMake(a, r) ==
  LET b == Denoted(a)
      n == Len(b)
  IN  Fail(r.vector = b, "vector")
      \cup Fail(r.iterated = b, "iterated")
      \cup Fail(r.items = b, "items")
      \cup Fail(r.length = <<n, n>>, "length")
      \cup Fail(r.weight = Weight(b), "weight")
      \cup Fail(r.changes = Changes(b), "changes")
      \cup Fail(r.intval = Canon(b), "intval")
      \cup Fail(r.exposet = Asc(Ones(b)), "exposet")
      \cup Fail(r.string = CharsBits(b), "string")
      \cup Fail(r.pretty = (IF n \in PrettyLengths THEN <<Pretty(b)>> ELSE <<>>), "pretty")
      \cup Fail(r.complement = <<Not(b), Not(b)>>, "complement")
      \cup Fail(r.reverse = Rev(b), "reverse")
      \cup Fail(r.required_length = Need(b), "required_length")
      \cup Fail(r.has_index = [i \in 1 .. n + 3 |-> i <= n /\ b[i] = 1], "has_index")
      \cup Fail(SetsOf(r.blocks) = SideBlocks(b) /\ Len(r.blocks) = Cardinality(SideBlocks(b)), "blocks")
      \cup Fail(r.printed = Printed(b), "printed")

FailSlice(a, r) ==
  Fail(r.piece = Slice(a.bits, a.from, a.to), "piece")
  \cup Fail(r.last = a.bits[Len(a.bits)], "last")

FailPair(a, r) ==
  LET x == a.x
      y == a.y
  IN  Fail(r.eq = (x = y), "eq")
      \cup Fail(r.ne = (x # y), "ne")
      \cup Fail(r.lt = LexLess(x, y), "lt")
      \cup Fail(r.gt = LexLess(y, x), "gt")
      \cup Fail(r.le = ~LexLess(y, x), "le")
      \cup Fail(r.ge = ~LexLess(x, y), "ge")
      \cup Fail(r.add = x \o y, "add")
      \cup Fail(r.after = <<x, y>>, "after")

FailHash(a, r) == Fail(r.hash_equal, "hash_equal") \cup Fail(r.one_key = 1, "one_key")

FailBitwise(a, r) ==
  LET x == a.x
      y == a.y
  IN  Fail(r.conj = And(x, y), "conj")
      \cup Fail(r.disj = Or(x, y), "disj")
      \cup Fail(r.xor = Xor(x, y), "xor")
      \cup Fail(r.inv = Not(x), "inv")
      \cup Fail(r.smaller = BitwiseSmaller(x, y), "smaller")
      \cup Fail(r.flip = [i \in 1 .. Len(x) |-> Flip(x, i - 1)], "flip")
      \cup Fail(r.after = <<x, y>>, "after")

Failing(e) ==
  IF e.err # <<>> THEN Unreadable(e)
  ELSE CASE e.op = "make" -> FailMake(e.a, e.r)
         [] e.op = "admit" -> Fail(e.r.rejected = ~Admissible(e.a), "rejected")
         [] e.op = "slice" -> FailSlice(e.a, e.r)
         [] e.op = "pair" -> FailPair(e.a, e.r)
         [] e.op = "hash" -> FailHash(e.a, e.r)
         [] e.op = "bitwise" -> FailBitwise(e.a, e.r)
         [] OTHER -> {"unknown operation"}

TraceNext == pos < Len(Trace) /\ Judge(Failing(Trace[pos + 1]))
=============================================================================
