----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Reading recorded executions of the real code.  A trace file holds one   *)
(* JSON event per line; STARTS (a JSON array of line numbers) cuts it into *)
(* independent pieces, which TLC validates in parallel: every piece is a   *)
(* behaviour of the trace specification that ends at line 0.  An event     *)
(* that no action explains leaves its piece without a successor, so TLC    *)
(* reports a deadlock and the last state names the line.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace  == ndJsonDeserialize(IOEnv.TRACE)
Starts == JsonDeserialize(IOEnv.STARTS)
StartSet == { Starts[k] : k \in 1..Len(Starts) }
NextLine(l) == IF l = Len(Trace) \/ l + 1 \in StartSet THEN 0 ELSE l + 1
Has(e, f) == f \in DOMAIN e
=============================================================================
