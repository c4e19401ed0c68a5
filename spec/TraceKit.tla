------------------------------ MODULE TraceKit ------------------------------
(* Generic, total trace checker.                                            *)
(*                                                                          *)
(* An area's trace module supplies                                          *)
(*   KStep(s, e)  - the specification's next state for the recorded event   *)
(*   KFails(s, e) - the set of names of the clauses the event violates      *)
(* and extends this module, its .cfg substituting them for the constants.  The trace is an ndjson file: one record   *)
(* per line, each with fields  h  (history number) and  k  (event kind).     *)
(* A record whose h differs from the previous one starts a new history from *)
(* KInit.  The verdict is total: every line is consumed, every failing      *)
(* clause is recorded, and the list is written as JSON by the POSTCONDITION. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, FiniteSets

CONSTANTS KInit, KStep(_, _), KFails(_, _)
VARIABLES tkl, tkst

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Len_ == Len(Trace)

TraceInit == /\ tkl = 1
             /\ tkst = KInit
             /\ TLCSet(1, <<>>)
             /\ TLCSet(2, 0)

TraceNext ==
  /\ tkl <= Len_
  /\ LET e  == Trace[tkl]
         s0 == IF tkl > 1 /\ Trace[tkl-1].h = e.h THEN tkst ELSE KInit
         f  == KFails(s0, e)
     IN /\ (f # {}) => TLCSet(1, Append(TLCGet(1), [line |-> tkl, clauses |-> f]))
        /\ TLCSet(2, tkl)
        /\ tkst' = KStep(s0, e)
  /\ tkl' = tkl + 1

TraceSpec == TraceInit /\ [][TraceNext]_<<tkl, tkst>>

(* the whole trace was consumed, and the verdict is on disk                 *)
TraceAccepted ==
  /\ JsonSerialize(IOEnv.VERDICT_FILE,
        [consumed |-> TLCGet(2), lines |-> Len_, bad |-> TLCGet(1)])
  /\ TLCGet(2) = Len_
=============================================================================
