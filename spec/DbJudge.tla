------------------------------- MODULE DbJudge -------------------------------
(* Trace validation for Db: recorded calls are replayed on the model; the     *)
(* table of the model follows the calls, and every answer must be the model's.*)
EXTENDS Db, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NR == 6

VARIABLES l, rows
Empty == [i \in 1..NR |-> Absent]
Init == l = 1 /\ rows = Empty
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "init" THEN rows' = Empty
           ELSE /\ IF Conforms(rows, e) THEN TRUE ELSE PrintT(<<"BAD", l>>)
                /\ rows' = Do(rows, e)
Spec == Init /\ [][Next]_<<l, rows>>
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
