---------------------------- MODULE TraceSetPart ----------------------------
(* Log of one set partition after the other: "new" makes one, operations     *)
(* change it, "view" looks at it.  The specified partition is carried along. *)
EXTENDS SetPartSpec, TraceBase

VARIABLE part

DomOf(a) == Dom(a.kind, Ran(a.set))
LabelSet(ls) == {<<Ran(ls[i][1]), ls[i][2]>> : i \in DOMAIN ls}
Given(a) == [dom |-> DomOf(a.domain), blocks |-> BlocksOf(SetsOf(a.blocks)), labels |-> LabelSet(a.labels)]
\* blocks in which no element occurs twice
Disjoint(a) == LET f == Flat([i \in DOMAIN a.blocks |-> IF Len(a.blocks[i]) > 1 THEN a.blocks[i] ELSE <<>>])
               IN  IsInjectiveSeq(f)

Apply(p, e) ==
  CASE e.op = "new" -> IF Disjoint(e.a) THEN Accepted(Given(e.a)) ELSE Rejected(p)
    [] e.op = "merge" -> Merge(p, {e.a.x, e.a.y})
    [] e.op = "many" -> Merge(p, Ran(e.a.xs))
    [] e.op = "refine" -> IF e.a.doubled THEN Rejected(p)
                          ELSE Refine(p, [i \in DOMAIN e.a.parts |-> Ran(e.a.parts[i])], e.a.labels)
    [] e.op = "label" -> LabelElement(p, e.a.x, e.a.label)
    [] e.op = "label block" -> LabelBlock(p, Ran(e.a.block), e.a.label)

Opt(S) == IF S = {} THEN <<>> ELSE <<CHOOSE x \in S : TRUE>>
Probed(a, f(_)) == [i \in DOMAIN a.probe |-> f(a.probe[i])]
IndexOf(p, x) == IF x \notin Touched(p) THEN <<>>
                 ELSE LET b == BlockSeq(p.blocks) IN <<CHOOSE i \in DOMAIN b : x \in Ran(b[i])>>

FailView(p, a, r) ==
  LET labelled == {l[1] : l \in p.labels}
  IN  Fail(r.blocks = BlockSeq(p.blocks), "blocks")
      \cup Fail(r.canonical = BlockSeq(CanonBlocks(p)), "canonical")
      \cup Fail(r.pairs = SortSeqs(PairsOf(p)), "pairs")
      \cup Fail(r.touched = Asc(Touched(p)), "touched")
      \cup Fail(r.trivial = (p.blocks = {}), "trivial")
      \cup Fail(r.printed = PrintedPart(p), "printed")
      \cup Fail(r.of = Probed(a, LAMBDA x : Asc(BlockOf(p, x))), "of")
      \cup Fail(r.index = Probed(a, LAMBDA x : IndexOf(p, x)), "index")
      \cup Fail(r.inside = Probed(a, LAMBDA x : InDomain(p.dom, x)), "inside")
      \cup Fail(r.same = Probed(a, LAMBDA x : Probed(a, LAMBDA y : SameBlock(p, x, y))), "same")
      \cup Fail(r.with = BlockSeq(Parted(p, Ran(a.elements))), "with")
      \cup Fail(r.twin, "twin")
      \cup Fail(p.dom.kind = "N" => r.length = <<PartLength(p)>>, "length")
      \cup Fail(p.dom.kind # "N" => r.length = <<>>, "length")
      \cup Fail((p.dom.kind = "N" \/ (p.dom.kind = "F" /\ \A x \in p.dom.set : x >= 0)) => r.intval = <<IntvalBits(p)>>, "intval")
      \cup Fail(r.singletons = (IF p.dom.kind = "F" THEN <<Asc(p.dom.set \ Touched(p))>> ELSE <<>>), "singletons")
      \cup Fail(r.label_of = Probed(a, LAMBDA x : Opt(LabelOf(p, BlockOf(p, x)))), "label_of")
      \cup Fail(r.label_of_block = [i \in DOMAIN r.canonical |-> Opt(LabelOf(p, Ran(r.canonical[i])))], "label_of_block")
      \cup Fail(r.block_with = [i \in DOMAIN a.names |-> LET B == BlockWith(p, a.names[i])
                                                         IN  IF B = {} THEN <<>> ELSE <<Asc(UNION B)>>], "block_with")
      \cup Fail(r.labelled_block_of = Probed(a, LAMBDA x : IF LabelOf(p, BlockOf(p, x)) = {} THEN <<>> ELSE <<Asc(BlockOf(p, x))>>),
                "labelled_block_of")
      \cup Fail({<<Ran(r.labels[i][1]), r.labels[i][2]>> : i \in DOMAIN r.labels} = p.labels
                /\ Len(r.labels) = Cardinality(p.labels), "labels")

FailOp(p, e) == Fail(e.r.rejected = ~Apply(p, e).ok, "rejected")

\* blocks with singletons for a requested size
FailSized(p, a, r) ==
  LET ok == CASE a.by = "length" -> p.dom.kind = "N" /\ a.hi >= PartLength(p)
              [] a.by = "range" -> p.dom.kind = "Z" /\ \A x \in Touched(p) : a.lo <= x /\ x < a.hi
              [] OTHER -> \A x \in Touched(p) : a.lo <= x /\ x < a.hi
      lo == IF a.by = "length" THEN 0 ELSE a.lo
  IN  Fail(r.blocks = (IF ok THEN <<BlockSeq(Parted(p, lo .. (a.hi - 1)))>> ELSE <<>>), "blocks")

FailPair(a, r) ==
  LET p == NewPart(DomOf(a.dx), BlocksOf(SetsOf(a.x)))
      q == NewPart(DomOf(a.dy), BlocksOf(SetsOf(a.y)))
      same == p.dom = q.dom
      part_of(x) == <<[kind |-> x.dom.kind, set |-> Asc(x.dom.set), blocks |-> BlockSeq(x.blocks)]>>
      truth(b) == IF same THEN <<b>> ELSE <<>>
  IN  Fail(r.meet = (IF same THEN part_of(Meet(p, q)) ELSE <<>>), "meet")
      \cup Fail(r.join = (IF same THEN part_of(JoinOf(p, q)) ELSE <<>>), "join")
      \cup Fail(r.eq = truth(p = q), "eq")
      \cup Fail(r.ne = truth(p # q), "ne")
      \cup Fail(r.le = truth(Finer(p, q)), "le")
      \cup Fail(r.lt = truth(Finer(p, q) /\ p # q), "lt")
      \cup Fail(r.ge = truth(Finer(q, p)), "ge")
      \cup Fail(r.gt = truth(Finer(q, p) /\ p # q), "gt")
      \cup Fail(r.after = <<part_of(p)[1], part_of(q)[1]>>, "after")

Failing(e, p) ==
  IF e.err # <<>> THEN Unreadable(e)
  ELSE CASE e.op = "view" -> FailView(p, e.a, e.r)
         [] e.op = "sized" -> FailSized(p, e.a, e.r)
         [] e.op = "pair" -> FailPair(e.a, e.r)
         [] e.op \in {"new", "merge", "many", "refine", "label", "label block"} -> FailOp(p, e)
         [] OTHER -> {"unknown operation"}

SetPartInit == TraceInit /\ part = NewPart(Dom("N", {}), {})
SetPartNext ==
  /\ pos < Len(Trace)
  /\ LET e == Trace[pos + 1]
     IN  /\ Judge(Failing(e, part))
         /\ part' = IF e.op \in {"new", "merge", "many", "refine", "label", "label block"} THEN Apply(part, e).part ELSE part
=============================================================================
