------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* Trace validation harness.  Every line of the trace is one recorded call *)
(* of the implementation.  Verdict(e) says "ok" or names the clause of the *)
(* specification that the recorded call does not satisfy; it is total, so  *)
(* a rejection of one line never hides the lines after it.  The trace is   *)
(* walked in Lanes independent lanes so that TLC's workers share it.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Verdict(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 64

VARIABLES line_, verdict_
tvars == <<line_, verdict_>>

TInit == line_ \in (1 - Lanes)..0 /\ verdict_ = "start"
TNext == /\ line_ + Lanes <= Len(Trace)
         /\ line_' = line_ + Lanes
         /\ verdict_' = Verdict(Trace[line_'])
         /\ verdict_' = "ok" \/ PrintT("REJECT " \o ToString(line_') \o " " \o verdict_')
TSpec == TInit /\ [][TNext]_tvars

\* every line was consumed
TAccepted == PrintT(<<"CONSUMED", TLCGet("stats").distinct - Lanes, Len(Trace)>>)
=============================================================================
