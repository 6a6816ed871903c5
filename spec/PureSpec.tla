------------------------------ MODULE PureSpec ------------------------------
(* Objects with caches, seen from outside.  An object has a value that no     *)
(* question changes.  The answer to a question depends on that value alone.   *)
(* An object may remember answers, to the question asked or to others, and    *)
(* objects with the same value may share what they remember.  An answer may   *)
(* be an object itself, with a value of its own.                              *)
EXTENDS Naturals, Sequences, FiniteSets

\* what a history says about the answers: names of the questions whose answer is not the answer of a fresh object
Strayed(known, asked, answers) ==
  {asked[i] : i \in {j \in 1..Len(asked) : j > Len(answers) \/ answers[j] # known[asked[j]]}}

Transparent(known, asked, answers) == Len(answers) = Len(asked) /\ Strayed(known, asked, answers) = {}
=============================================================================
