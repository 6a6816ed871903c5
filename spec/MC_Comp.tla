------------------------------ MODULE MC_Comp ------------------------------
(* All histories of equalities and complements between a few elements.       *)
EXTENDS CompSpec, Json
CONSTANTS Elements, Emit

VARIABLES c, facts

ElementsN == {0, 1, 2, 3, 4}
ElementsZ == {-7, -1, 0, 4}

Brief(x) == {{<<l[1], l[2]>> : l \in B} : B \in x}
Line(x, y, s, r) == "STEP " \o ToJson([from |-> Brief(c), to |-> Brief(r.c), ok |-> r.ok, x |-> x, y |-> y, sign |-> s])

Init == c = NoFacts /\ facts = {}
Next == \E x, y \in Elements, s \in {0, 1} :
          LET r == State(c, x, y, s)
          IN  /\ Emit => PrintT(Line(x, y, s, r))
              /\ c' = r.c
              /\ UNCHANGED facts
\* with a record of the accepted statements
NextFacts == \E x, y \in Elements, s \in {0, 1} :
               LET r == State(c, x, y, s)
               IN  /\ c' = r.c
                   /\ facts' = IF r.ok THEN facts \cup {<<x, y, s>>} ELSE facts

Sound == Consistent(c)
\* exactly the consequences
Entailed == c = Closure(Elements, facts)
\* rejected exactly if the statements would be inconsistent together
RejectedRightly == \A x, y \in Elements, s \in {0, 1} :
                     State(c, x, y, s).ok <=> Consistent(Closure(Elements, facts \cup {<<x, y, s>>}))
\* views and constraint say the same
ViewsAgree ==
  /\ \A x, y \in Elements : AreEqual(c, x, y) <=> \A i \in 1 .. 32 : Respects(c, BitsN(i - 1, 5)) => Digit01(BitsN(i - 1, 5), x) = Digit01(BitsN(i - 1, 5), y)
  /\ \A x, y \in Elements : AreComp(c, x, y) <=> \A i \in 1 .. 32 : Respects(c, BitsN(i - 1, 5)) => Digit01(BitsN(i - 1, 5), x) # Digit01(BitsN(i - 1, 5), y)
Rebuilt == LET chain(B) == {<<MinOf(B), x, 0>> : x \in B}
           IN  Closure(Elements, UNION {chain(B) : B \in EqualBlocks(c)} \cup {<<q[1], q[2], 1>> : q \in CompPairs(c)}) = c
=============================================================================
