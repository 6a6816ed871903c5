------------------------------ MODULE TracePure ------------------------------
(* Recorded histories of questions to the real objects.  An event "object"    *)
(* tells the answers of fresh objects; the histories behind it have to give   *)
(* the same answers, whatever was asked before.                               *)
EXTENDS TraceBase, PureSpec

VARIABLE known

Init == TraceInit /\ known = <<>>

FailHistory(a, r) ==
  Strayed(known, a.asked, r.answers)
  \cup Fail(Len(r.answers) = Len(a.asked), "number of answers")
  \cup Fail(r.still, "the object is no longer equal to a fresh one")
  \cup Fail(r.kept, "an argument was changed")
  \cup Fail(r.later, "an answer given before was changed")

Failing(e) ==
  CASE Unreadable(e) # {} -> Unreadable(e)
    [] e.op = "object" -> {}
    [] e.op = "history" -> FailHistory(e.a, e.r)
    [] OTHER -> {"unknown operation"}

Next ==
  /\ pos < Len(Trace)
  /\ LET e == Trace[pos + 1]
     IN  /\ known' = IF e.op = "object" /\ Unreadable(e) = {} THEN e.a.known ELSE known
         /\ Judge(Failing(e))
=============================================================================
