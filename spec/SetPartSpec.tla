---------------------------- MODULE SetPartSpec ----------------------------
(* Set partitions that change over time.  A partition is given by its        *)
(* domain, its blocks with more than one element, and the labels of blocks   *)
(* (also of singletons).  Operations give a new partition or are rejected.   *)
EXTENDS Common

\* domains: all naturals, all integers, or a finite set
Dom(kind, S) == [kind |-> kind, set |-> S]
InDomain(d, x) == CASE d.kind = "N" -> x >= 0
                    [] d.kind = "Z" -> TRUE
                    [] OTHER -> x \in d.set

NewPart(d, blocks) == [dom |-> d, blocks |-> blocks, labels |-> {}]

BlockOf(p, x) == IF \E B \in p.blocks : x \in B THEN CHOOSE B \in p.blocks : x \in B ELSE {x}
SameBlock(p, x, y) == BlockOf(p, x) = BlockOf(p, y)
Touched(p) == UNION p.blocks                         \* elements of blocks that are no singletons
PartLength(p) == IF p.blocks = {} THEN 0 ELSE MaxOf(Touched(p)) + 1

\* the blocks and singletons of a set of elements that contains all blocks
Parted(p, S) == p.blocks \cup {{x} : x \in S \ Touched(p)}
CanonElements(p) == CASE p.dom.kind = "N" -> Below(PartLength(p))
                      [] p.dom.kind = "Z" -> IF p.blocks = {} THEN {} ELSE MinOf(Touched(p)) .. MaxOf(Touched(p))
                      [] OTHER -> p.dom.set
CanonBlocks(p) == Parted(p, CanonElements(p))

PairsOf(p) == {<<x, y>> \in Touched(p) \X Touched(p) : x < y /\ SameBlock(p, x, y)}
\* pair (a, b) with a < b is digit b(b-1)/2 + a
PairDigit(q) == (q[2] * (q[2] - 1)) \div 2 + q[1]
IntvalBits(p) == LET D == {PairDigit(q) : q \in PairsOf(p)}
                 IN  IF D = {} THEN <<>> ELSE BitsOfSet(D, MaxOf(D) + 1)

----------------------------------------------------------------------------
(* labels *)

LabelOf(p, B) == {l[2] : l \in {m \in p.labels : m[1] = B}}          \* empty or one label
BlockWith(p, label) == {l[1] : l \in {m \in p.labels : m[2] = label}}
LabelsIn(p, Bs) == UNION {LabelOf(p, B) : B \in Bs}

WellLabelled(p) ==
  /\ \A l, m \in p.labels : (l[1] = m[1]) <=> (l[2] = m[2])
  /\ \A l \in p.labels : l[1] # {} /\ \A x \in l[1] : BlockOf(p, x) = l[1]
WellFormed(p) ==
  /\ \A B \in p.blocks : Cardinality(B) > 1 /\ \A x \in B : InDomain(p.dom, x)
  /\ \A B, C \in p.blocks : B = C \/ B \cap C = {}

----------------------------------------------------------------------------
(* operations: result [ok, part] *)

Rejected(p) == [ok |-> FALSE, part |-> p]
Accepted(p) == [ok |-> TRUE, part |-> p]

MergeBlocks(p, Bs) ==     \* the blocks Bs become one, which has the label of its parts
  IF Cardinality(Bs) <= 1 THEN p
  ELSE LET M == UNION Bs
           ls == LabelsIn(p, Bs)
       IN  [p EXCEPT !.blocks = (@ \ Bs) \cup {M},
                     !.labels = {l \in @ : l[1] \notin Bs} \cup {<<M, l>> : l \in ls}]

Merge(p, S) ==
  LET Bs == {BlockOf(p, x) : x \in S}
  IN  IF \E x \in S : ~InDomain(p.dom, x) THEN Rejected(p)
      ELSE IF Cardinality(LabelsIn(p, Bs)) > 1 THEN Rejected(p)
      ELSE Accepted(MergeBlocks(p, Bs))

\* parts: sequence of sets; labels: sequence of labels, or empty
Refine(p, parts, labels) ==
  LET B == UNION Ran(parts)
      disjoint == \A i, j \in DOMAIN parts : i = j \/ parts[i] \cap parts[j] = {}
      others == {l \in p.labels : l[1] # B}
      fresh == {<<parts[i], labels[i]>> : i \in DOMAIN labels}
  IN  IF ~disjoint \/ B \notin p.blocks THEN Rejected(p)
      ELSE IF labels # <<>> /\ Len(labels) # Len(parts) THEN Rejected(p)
      ELSE IF Cardinality(Ran(labels)) # Len(labels) \/ \E l \in others : l[2] \in Ran(labels) THEN Rejected(p)
      ELSE Accepted([p EXCEPT !.blocks = (@ \ {B}) \cup BlocksOf(Ran(parts)), !.labels = others \cup fresh])

LabelBlock(p, B, label) ==
  IF B \notin CanonBlocks(p) THEN Rejected(p)
  ELSE IF LabelOf(p, B) = {label} THEN Accepted(p)
  ELSE IF LabelOf(p, B) # {} \/ BlockWith(p, label) # {} THEN Rejected(p)
  ELSE Accepted([p EXCEPT !.labels = @ \cup {<<B, label>>}])

LabelElement(p, x, label) ==
  LET B == BlockOf(p, x)
  IN  IF ~InDomain(p.dom, x) THEN Rejected(p)
      ELSE IF LabelOf(p, B) \ {label} # {} THEN Rejected(p)
      ELSE IF BlockWith(p, label) # {} THEN Accepted(MergeBlocks(p, {B} \cup BlockWith(p, label)))
      ELSE LabelBlock(p, B, label)

----------------------------------------------------------------------------
(* the lattice of partitions of one domain *)

Meet(p, q) == NewPart(p.dom, BlocksOf({B \cap C : B \in p.blocks, C \in q.blocks}))
JoinOf(p, q) ==
  LET S == Touched(p) \cup Touched(q)
      R == {<<MinOf(B), x>> : B \in p.blocks \cup q.blocks, x \in S}
      T == {r \in R : \E B \in p.blocks \cup q.blocks : r[1] = MinOf(B) /\ r[2] \in B}
  IN  NewPart(p.dom, BlocksOf(Components(S, T)))
Finer(p, q) == \A B \in p.blocks : \E C \in q.blocks : B \subseteq C

----------------------------------------------------------------------------
(* how sets of sets are written down: ascending blocks, in lexicographic order *)

RECURSIVE SortSeqs(_)
SortSeqs(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ LexLess(x, y) IN <<m>> \o SortSeqs(S \ {m})
BlockSeq(P) == SortSeqs({Asc(B) : B \in P})
PrintedBlocks(P) == LET b == BlockSeq(P) IN <<"[">> \o Join([i \in DOMAIN b |-> CharsList(b[i])], <<",", " ">>) \o <<"]">>
PrintedPart(p) ==
  LET head == <<"S", "e", "t", "P", "a", "r", "t", "(">> \o PrintedBlocks(p.blocks)
      elems == LET a == Asc(p.dom.set) IN Join([i \in DOMAIN a |-> CharsInt(a[i])], <<",", " ">>)
  IN  CASE p.dom.kind = "N" -> head \o <<")">>
        [] p.dom.kind = "Z" -> head \o <<",", " ", "'", "Z", "'", ")">>
        [] OTHER -> head \o <<",", " ", "{">> \o elems \o <<"}", ")">>
=============================================================================
