----------------------------- MODULE TraceComp -----------------------------
(* Log of one equality-complement structure after the other.                 *)
EXTENDS CompSpec, TraceBase
VARIABLE comp

BlockFacts(b) == [i \in 1 .. (Len(b) - 1) |-> <<b[i], b[i + 1], 0>>]
GivenFacts(a) == Flat([i \in DOMAIN a.blocks |-> BlockFacts(a.blocks[i])])
                 \o [i \in DOMAIN a.pairs |-> <<a.pairs[i][1], a.pairs[i][2], 1>>]

Apply(c, e) ==
  CASE e.op = "new" -> LET r == StateAll(NoFacts, GivenFacts(e.a)) IN [ok |-> r.ok, c |-> IF r.ok THEN r.c ELSE c]
    [] e.op = "equal" -> State(c, e.a.x, e.a.y, 0)
    [] e.op = "complement" -> State(c, e.a.x, e.a.y, 1)

Probed(a, f(_)) == [i \in DOMAIN a.probe |-> f(a.probe[i])]

FailView(c, a, r) ==
       Fail(r.equal = Probed(a, LAMBDA x : Probed(a, LAMBDA y : AreEqual(c, x, y))), "equal")
  \cup Fail(r.comp = Probed(a, LAMBDA x : Probed(a, LAMBDA y : AreComp(c, x, y))), "comp")
  \cup Fail(r.blocks = BlockSeq(EqualBlocks(c)), "blocks")
  \cup Fail(r.pairs = SortSeqs(CompPairs(c)), "pairs")
  \cup Fail(r.all_pairs = SortSeqs(AllCompPairs(c)), "all_pairs")
  \cup Fail(r.get_comp = Probed(a, LAMBDA x : IF CoBlock(c, x) = {} THEN <<>> ELSE <<MinOf(CoBlock(c, x))>>), "get_comp")
  \cup Fail(r.get_block = Probed(a, LAMBDA x : Asc(EqBlock(c, x))), "get_block")
  \cup Fail(r.get_repr = Probed(a, LAMBDA x : MinOf(EqBlock(c, x))), "get_repr")
  \cup Fail(r.related = BlockSeq(RelatedBlocks(c)), "related")
  \cup Fail(r.counts = <<Cardinality(RelatedBlocks(c)), CompLength(c), Cardinality(Affected(c))>>, "counts")
  \cup Fail(r.affected = Asc(Affected(c)), "affected")
  \cup Fail(r.rebuilt, "rebuilt")
  \cup Fail(r.printed, "printed")

FailConstraint(c, a, r) ==
       Fail(r.table = CompTable(c, a.n), "table")
  \cup Fail(r.matches = [i \in DOMAIN a.numbers |-> Respects(c, a.numbers[i])], "matches")

FailSame(c, a, r) ==     \* comparison with a structure made from these blocks and pairs
  LET d == StateAll(NoFacts, GivenFacts(a))
  IN  Fail(r.eq = (d.c = c), "eq") \cup Fail(r.ne = (d.c # c), "ne")

Ops == {"new", "equal", "complement"}
Failing(e, c) ==
  IF e.err # <<>> THEN Unreadable(e)
  ELSE CASE e.op = "view" -> FailView(c, e.a, e.r)
         [] e.op = "constraint" -> FailConstraint(c, e.a, e.r)
         [] e.op = "matches" -> Fail(e.r.matches = [i \in DOMAIN e.a.numbers |-> Respects(c, e.a.numbers[i])], "matches")
         [] e.op = "same" -> FailSame(c, e.a, e.r)
         [] e.op \in Ops -> Fail(e.r.rejected = ~Apply(c, e).ok, "rejected")
         [] OTHER -> {"unknown operation"}

CompInit == TraceInit /\ comp = NoFacts
CompNext ==
  /\ pos < Len(Trace)
  /\ LET e == Trace[pos + 1]
     IN  /\ Judge(Failing(e, comp))
         /\ comp' = IF e.op \in Ops THEN Apply(comp, e).c ELSE comp
=============================================================================
