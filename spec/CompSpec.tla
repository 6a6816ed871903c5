------------------------------ MODULE CompSpec ------------------------------
(* Equalities and complements.  A literal is <<element, 0>> or, for its      *)
(* complement, <<element, 1>>.  What was stated is the partition of literals *)
(* into those that have to be equal; only literals with company are stored.  *)
EXTENDS SetPartSpec

NoFacts == {}

LitBlock(c, l) == IF \E B \in c : l \in B THEN CHOOSE B \in c : l \in B ELSE {l}
Linked(c, l, m) == LitBlock(c, l) = LitBlock(c, m)
AreEqual(c, x, y) == Linked(c, <<x, 0>>, <<y, 0>>)
AreComp(c, x, y) == Linked(c, <<x, 0>>, <<y, 1>>)

Link(c, l, m) == LET A == LitBlock(c, l)
                     B == LitBlock(c, m)
                 IN  IF A = B THEN c ELSE (c \ {A, B}) \cup {A \cup B}
\* sign 0: x equals y; sign 1: x complements y
Contradicts(c, x, y, sign) == Linked(c, <<x, 0>>, <<y, 1 - sign>>)
State(c, x, y, sign) ==
  IF Contradicts(c, x, y, sign) THEN [ok |-> FALSE, c |-> c]
  ELSE [ok |-> TRUE, c |-> Link(Link(c, <<x, 0>>, <<y, sign>>), <<x, 1>>, <<y, 1 - sign>>)]
\* one statement after the other
RECURSIVE StateAll(_, _)
StateAll(c, facts) ==
  IF facts = <<>> THEN [ok |-> TRUE, c |-> c]
  ELSE LET f == Head(facts)
           r == State(c, f[1], f[2], f[3])
       IN  IF r.ok THEN StateAll(r.c, Tail(facts)) ELSE [ok |-> FALSE, c |-> c]

\* declaratively: the finest partition of literals that respects all facts and their mirror images
Closure(X, facts) ==
  LET R == {<< <<f[1], 0>>, <<f[2], f[3]>> >> : f \in facts} \cup {<< <<f[1], 1>>, <<f[2], 1 - f[3]>> >> : f \in facts}
  IN  BlocksOf(Components(X \X {0, 1}, R))
Consistent(c) == \A B \in c : \A l \in B : <<l[1], 1 - l[2]>> \notin B

----------------------------------------------------------------------------
(* views *)

Affected(c) == {l[1] : l \in UNION c}
EqBlock(c, x) == {l[1] : l \in {m \in LitBlock(c, <<x, 0>>) : m[2] = 0}}
CoBlock(c, x) == {l[1] : l \in {m \in LitBlock(c, <<x, 0>>) : m[2] = 1}}
EqualBlocks(c) == BlocksOf({EqBlock(c, x) : x \in Affected(c)})
CompPairs(c) == {<<MinOf(EqBlock(c, x)), MinOf(CoBlock(c, x))>> : x \in {y \in Affected(c) : CoBlock(c, y) # {} /\ MinOf(EqBlock(c, y)) < MinOf(CoBlock(c, y))}}
AllCompPairs(c) == {<<x, y>> \in Affected(c) \X Affected(c) : x < y /\ AreComp(c, x, y)}
RelatedBlocks(c) == {EqBlock(c, x) \cup CoBlock(c, x) : x \in Affected(c)}
CompLength(c) == IF c = {} THEN 0 ELSE MaxOf(Affected(c)) + 1

Digit01(b, i) == IF i < Len(b) THEN b[i + 1] ELSE 0
\* the assignment with the digits b respects all equalities and complements
Respects(c, b) == \A B \in c : \A l, m \in B : (Digit01(b, l[1]) = l[2]) = (Digit01(b, m[1]) = m[2])
CompTable(c, n) == [i \in 1 .. P2(n) |-> IF Respects(c, BitsN(i - 1, n)) THEN 1 ELSE 0]
=============================================================================
