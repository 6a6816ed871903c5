-------------------------------- MODULE MC_Own --------------------------------
(* Objects on a heap: a constructor takes a container over either by copying   *)
(* its cell or by sharing it.  With copies every change stays where it was     *)
(* made.  The histories of changes are written out and replayed into the real  *)
(* classes.  (With Sharing = TRUE TLC finds the spreading change: this is the  *)
(* mistake the property excludes.)                                             *)
EXTENDS OwnSpec, TLC, Json

CONSTANTS Depth,    \* number of changes
          Kinds,    \* kinds of change
          Emit,     \* write the histories out
          Sharing   \* constructors share instead of copying

\* an argument, two objects made from it, an operand, and a result made of the first object and the operand
Things == {"argument", "first", "second", "operand", "result"}
Source == [first |-> "argument", second |-> "argument", result |-> "first"]

VARIABLES cell,     \* thing -> cell of the heap
          heap,     \* cell -> content
          history,  \* the changes so far: <<thing, kind>>
          last      \* values before the last change

vars == <<cell, heap, history, last>>

Value(t) == heap[cell[t]]
Values == [t \in Things |-> Value(t)]

Number == [argument |-> 1, first |-> 2, second |-> 3, operand |-> 4, result |-> 5]
RECURSIVE Home(_)
Home(t) == IF Sharing /\ t \in DOMAIN Source THEN Home(Source[t]) ELSE Number[t]

Init == /\ cell = [t \in Things |-> Home(t)]
        /\ heap = [c \in 1..5 |-> <<>>]
        /\ history = <<>>
        /\ last = Values

Change(t, k) ==
  /\ Len(history) < Depth
  /\ last' = Values
  /\ heap' = [heap EXCEPT ![cell[t]] = Append(@, k)]
  /\ history' = Append(history, <<t, k>>)
  /\ UNCHANGED cell
  /\ Emit => PrintT("STEP " \o ToJson(history'))

Next == \E t \in Things, k \in Kinds : Change(t, k)

\* every thing has exactly the changes made to it
Own(t) == SelectSeq(history, LAMBDA h : h[1] = t)
Sound == \A t \in Things : Value(t) = [i \in DOMAIN Own(t) |-> Own(t)[i][2]]
Kept == history # <<>> => Reached(last, Values, history[Len(history)][1]) = {}
=============================================================================
