------------------------------- MODULE OwnSpec -------------------------------
(* Several things side by side: containers given to a constructor, objects    *)
(* made from them, operands, results of operations.  Each thing owns its      *)
(* value: a change of one of them changes no other one.                       *)
EXTENDS Naturals, Sequences, FiniteSets

\* things that changed although they were not meant
Reached(before, after, target) == {t \in DOMAIN before \ {target} : t \notin DOMAIN after \/ after[t] # before[t]}

\* values after a change of the target
Changed(before, target, value) == [before EXCEPT ![target] = value]
=============================================================================
