-------------------------------- MODULE Pair --------------------------------
(***************************************************************************)
(* Two recordings of the same histories of calls (by two string types, or  *)
(* by two builds of the library) are replayed in lockstep: the calls must  *)
(* be the same, and so must be everything the caller can observe.          *)
(* Offending lines are printed.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Left == ndJsonDeserialize(IOEnv.TRACE)
Right == ndJsonDeserialize(IOEnv.TRACE2)

VARIABLES l, gone     \* next line; the histories have parted
vars == <<l, gone>>

(* Everything recorded of a call: its arguments, reply, value, texts of every object, views, sizes,
   guard bytes, items pulled, hashes, map keys.  Not compared: allocations made while panicking. *)
Ignored == {"al", "ty", "idx"}
SameReply(a, b) == /\ DOMAIN a = DOMAIN b
                   /\ \A f \in DOMAIN a \ Ignored : a[f] = b[f]

Init == l = 1 /\ gone = FALSE

Step == /\ l <= Len(Left) /\ l <= Len(Right)
        /\ l' = l + 1
        /\ LET a == Left[l]  b == Right[l] IN
           IF a.op = "init" \/ b.op = "init"
           THEN IF a.op = b.op /\ a.n = b.n THEN gone' = FALSE
                ELSE PrintT(<<"BAD", l>>) /\ gone' = TRUE
           ELSE LET same == SameReply(a, b) IN
                /\ IF same \/ gone THEN TRUE ELSE PrintT(<<"BAD", l>>)
                /\ gone' = (gone \/ ~same)

(* One recording ends before the other: the shorter one lacks an answer *)
Short == /\ Len(Left) # Len(Right)
         /\ l = 1 + IF Len(Left) < Len(Right) THEN Len(Left) ELSE Len(Right)
         /\ PrintT(<<"BAD", l>>)
         /\ l' = l + 1 /\ gone' = TRUE

Next == Step \/ Short
Spec == Init /\ [][Next]_vars
Longest == IF Len(Left) = Len(Right) THEN Len(Left) ELSE 1 + IF Len(Left) < Len(Right) THEN Len(Left) ELSE Len(Right)
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Longest>>)
=============================================================================
