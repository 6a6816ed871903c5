------------------------------- MODULE MC_Pure -------------------------------
(* The design behind the property: questions in every order to two objects    *)
(* with the same value and to an object that is an answer of the first, with  *)
(* memories that may be filled at any time by any answers, and a store shared *)
(* by all objects.  The words of questions are written out and replayed into  *)
(* the real classes, with real questions in the places.                       *)
EXTENDS PureSpec, TLC, Json

CONSTANTS Depth,     \* length of the words
          Places,    \* questions
          Emit,      \* write the words out
          Memories   \* let the memories vary (else they stay empty)

\* objects 1 and 2 have the same value, object 3 is the answer of object 1 to the first question
Objects == 1..3
ValueOf(o) == IF o = 3 THEN "b" ELSE "a"

VARIABLES word,    \* the questions so far: <<object, place>>
          log,     \* the answers
          memory   \* per object the questions whose answer is remembered
vars == <<word, log, memory>>

Answer(value, q) == <<value, q>>

\* places get their numbers in the order of their appearance; object 2 comes after object 1
UsedPlaces == {word[i][2] : i \in DOMAIN word} \cup {0}
Highest(S) == CHOOSE x \in S : \A y \in S : y <= x
Next2 == {q \in Places : q <= Highest(UsedPlaces) + 1}
Open == IF word = <<>> THEN {1} ELSE Objects

Init == word = <<>> /\ log = <<>> /\ memory = [o \in Objects |-> [q \in {} |-> q]]

Recall(o, q) == IF q \in DOMAIN memory[o] THEN memory[o][q] ELSE Answer(ValueOf(o), q)

Extend(m, o, qs) == [q \in DOMAIN m \cup qs |-> IF q \in DOMAIN m THEN m[q] ELSE Answer(ValueOf(o), q)]

Ask(o, q) ==
  /\ Len(word) < Depth
  /\ word' = Append(word, <<o, q>>)
  /\ log' = Append(log, Recall(o, q))
  /\ \E qs \in (IF Memories THEN SUBSET Places ELSE {{}}) :
       memory' = [memory EXCEPT ![o] = Extend(@, o, qs)]
  /\ Emit => PrintT("STEP " \o ToJson(word'))

\* an object of the same value may take over what another one remembers
Share == /\ Memories
         /\ memory' = [memory EXCEPT ![2] = Extend(@, 2, DOMAIN memory[1])]
         /\ UNCHANGED <<word, log>>

Next == (\E o \in Open, q \in Next2 : Ask(o, q)) \/ Share

Sound == \A i \in DOMAIN word : log[i] = Answer(ValueOf(word[i][1]), word[i][2])

\* the same in the words of the recorded histories
Seen == LET asked == [i \in DOMAIN word |-> word[i][2]]
            known == [q \in Places |-> Answer("a", q)]
        IN  (\A i \in DOMAIN word : word[i][1] # 3) => Transparent(known, asked, log)
=============================================================================
