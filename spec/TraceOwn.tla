------------------------------- MODULE TraceOwn -------------------------------
(* Recorded changes of containers and mutable objects.  Event "things" tells   *)
(* the values of all things at the beginning; every change may change its      *)
(* target alone.  Event "answers" asks an object that was not changed for      *)
(* everything: it has to answer like an object made from fresh copies.         *)
EXTENDS TraceBase, OwnSpec

VARIABLE values

Init == TraceInit /\ values = <<>>

FailChange(a, r) ==
  Reached(values, r.values, a.target) \cup Fail(r.values[a.target] = a.now, "the changed thing itself")

FailAnswers(a, r) == {a.asked[i] : i \in {j \in DOMAIN a.asked : r.answers[j] # a.known[j]}}

Failing(e) ==
  CASE Unreadable(e) # {} -> Unreadable(e)
    [] e.op = "things" -> {}
    [] e.op = "change" -> FailChange(e.a, e.r)
    [] e.op = "answers" -> FailAnswers(e.a, e.r)
    [] OTHER -> {"unknown operation"}

Next ==
  /\ pos < Len(Trace)
  /\ LET e == Trace[pos + 1]
     IN  /\ values' = CASE Unreadable(e) # {} -> values
                        [] e.op = "things" -> e.a.values
                        [] e.op = "change" -> Changed(values, e.a.target, e.a.now)
                        [] OTHER -> values
         /\ Judge(Failing(e))
=============================================================================
