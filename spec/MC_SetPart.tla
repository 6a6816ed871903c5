----------------------------- MODULE MC_SetPart -----------------------------
(* All histories of merges, refinements and labels within small bounds.      *)
(* Every step is written out as a line, to be replayed into the real code.   *)
EXTENDS SetPartSpec, Json
CONSTANTS Elements, Outside, Names, Kind, Emit

VARIABLES part, merged, split

ElementsN == {0, 1, 2, 3}
ElementsZ == {-2, -1, 0, 1}
ElementsF == {-1, 0, 2, 5}
OutsideN == {-1}
OutsideZ == {}
OutsideF == {9}
All == Elements \cup Outside
D == Dom(Kind, IF Kind = "F" THEN Elements ELSE {})

\* ways to cut a block into two or more parts (at most three), and one that does not fit
Cuts(B) == {<<S, B \ S>> : S \in (SUBSET B) \ {{}, B}}
           \cup {<<{x}, {y}, B \ {x, y}>> : x, y \in B}
Proper(c) == \A i, j \in DOMAIN c : c[i] # {} /\ (i = j \/ c[i] \cap c[j] = {})
LabelSeqs(n) == {<<>>} \cup {s \in [1 .. n -> Names] : TRUE}

Op(op, xs, parts, label, labels) == [op |-> op, xs |-> xs, parts |-> parts, label |-> label, labels |-> labels]
Ops(p) ==
  {Op("merge", <<q[1], q[2]>>, <<>>, "", <<>>) : q \in {r \in All \X All : r[1] # r[2] \/ r[1] \in Elements}}
  \cup {Op("many", Asc(S), <<>>, "", <<>>) : S \in {T \in SUBSET All : Cardinality(T) >= 3}}
  \cup {Op("label", <<x>>, <<>>, l, <<>>) : x \in All, l \in Names}
  \cup {Op("label block", Asc(B), <<>>, l, <<>>) : B \in {BlockOf(p, x) : x \in Elements}, l \in Names}
  \cup UNION {{Op("refine", <<>>, c, "", ls) : ls \in LabelSeqs(Len(c))}
              : c \in {k \in UNION {Cuts(B) : B \in p.blocks \cup {Elements}} : Proper(k)}}

Do(p, o) ==
  CASE o.op = "merge" -> Merge(p, Ran(o.xs))
    [] o.op = "many" -> Merge(p, Ran(o.xs))
    [] o.op = "label" -> LabelElement(p, o.xs[1], o.label)
    [] o.op = "label block" -> LabelBlock(p, Ran(o.xs), o.label)
    [] o.op = "refine" -> Refine(p, o.parts, o.labels)

Brief(p) == [b |-> BlockSeq(p.blocks), n |-> {<<Asc(l[1]), l[2]>> : l \in p.labels}]
Line(p, o, r) == "STEP " \o ToJson([from |-> Brief(p), to |-> Brief(r.part), ok |-> r.ok, op |-> o.op, xs |-> o.xs,
                                    parts |-> [i \in DOMAIN o.parts |-> Asc(o.parts[i])], label |-> o.label, labels |-> o.labels])

Init == part = NewPart(D, {}) /\ merged = {} /\ split = FALSE
Next == \E o \in Ops(part) :
          LET r == Do(part, o)
          IN  /\ Emit => PrintT(Line(part, o, r))
              /\ part' = r.part
              /\ UNCHANGED <<merged, split>>

\* the same histories with a record of what was merged, without refinements
NextMerges == \E o \in {q \in Ops(part) : q.op \in {"merge", "many"}} :
                LET r == Do(part, o)
                IN  /\ part' = r.part
                    /\ merged' = IF r.ok THEN merged \cup {<<x, y>> \in Ran(o.xs) \X Ran(o.xs) : x < y} ELSE merged
                    /\ UNCHANGED split

Sound == WellFormed(part) /\ WellLabelled(part)
ExactlyMerged == part.blocks = BlocksOf(Components(Elements, merged))
\* a rejected operation changes nothing; operations keep the domain
RejectionsAreInert == \A o \in Ops(part) : LET r == Do(part, o) IN (~r.ok => r.part = part) /\ r.part.dom = part.dom
\* labels are never lost by merges
LabelsKept == \A o \in Ops(part) : LET r == Do(part, o)
                                   IN  o.op \in {"merge", "many", "label", "label block"} =>
                                         {l[2] : l \in part.labels} \subseteq {l[2] : l \in r.part.labels}
=============================================================================
