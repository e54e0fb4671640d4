------------------------------- MODULE Harness ------------------------------
(* Validation of recorded executions.  A session is a list of events; the     *)
(* specification gives an initial abstract state and, for a state and an      *)
(* event, the next state and a total verdict: bad = "" or the name of the     *)
(* clause the event contradicts.  HK independent chains are explored in       *)
(* parallel; a session is left at its first rejected event.                   *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANTS InitOf(_), StepOf(_, _)

Trace == ndJsonDeserialize(IOEnv.TRACE)
HK == 48

VARIABLES hk, hs, hl, hst, hn

Start(j) == IF j <= Len(Trace) THEN InitOf(Trace[j]) ELSE <<>>

TInit == /\ hk \in 1..HK
         /\ hs = hk
         /\ hl = 1
         /\ hn = 0
         /\ hst = Start(hk)

Accept(r) == /\ r.bad = ""
             /\ hst' = r.st
             /\ hl' = hl + 1
             /\ hn' = hn + 1
             /\ UNCHANGED <<hk, hs>>

Reject(r) == /\ r.bad # ""
             /\ PrintT(<<"BAD", ToJson([s |-> hs, l |-> hl, clause |-> r.bad, exp |-> r.exp])>>)
             /\ hs' = hs + HK
             /\ hl' = 1
             /\ hn' = hn + 1
             /\ hst' = Start(hs + HK)
             /\ UNCHANGED hk

Event == /\ hs <= Len(Trace)
         /\ hl <= Len(Trace[hs].ev)
         /\ LET r == StepOf(hst, Trace[hs].ev[hl]) IN Accept(r) \/ Reject(r)

NextSession == /\ hs <= Len(Trace)
               /\ hl > Len(Trace[hs].ev)
               /\ hs' = hs + HK
               /\ hl' = 1
               /\ hst' = Start(hs + HK)
               /\ UNCHANGED <<hk, hn>>

Done == /\ hs > Len(Trace)
        /\ hl = 1
        /\ hl' = 0
        /\ PrintT(<<"DONE", hn>>)
        /\ UNCHANGED <<hk, hs, hst, hn>>

TNext == Event \/ NextSession \/ Done
=============================================================================
