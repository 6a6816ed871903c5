----------------------------- MODULE TraceBase -----------------------------
(* Checking a log of the real code against the specification.  Each event is *)
(* one step; a step whose event the specification does not allow is reported *)
(* and the check goes on, so the verdict is total.                           *)
EXTENDS Common, Json, IOUtils

VARIABLE pos

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

TraceInit == pos = 0

\* an event whose views could not be read is never allowed
Unreadable(e) == Ran(e.err)

Judge(failing) ==
  /\ failing # {} => PrintT("REJECT " \o ToString(pos + 1) \o " " \o ToString(failing))
  /\ pos' = pos + 1
=============================================================================
