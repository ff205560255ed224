------------------------------ MODULE Capacity ------------------------------
(***************************************************************************)
(* The capacities that exist, the memory each takes, and what fits.        *)
(* Judges layout, availability and filling events recorded from the real   *)
(* library (one JSON record per line).                                     *)
(***************************************************************************)
EXTENDS Utf, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Capacities == 1..255

(* Capacity and memory documented for each type; a "small" string takes what a std String takes *)
CapOf(e) == CASE e.name = "array" -> e.n
              [] e.name = "cache" -> 63
              [] e.name = "max" -> 255
              [] e.name = "small" -> e.string - 1
SizeOf(e) == CapOf(e) + 1
AlignOK(e) == e.name = "cache" => e.align = 64

LayoutOK(e) == /\ CapOf(e) \in Capacities
               /\ e.cap = CapOf(e)
               /\ e.size = SizeOf(e)
               /\ e.array4 = 4 * SizeOf(e)
               /\ AlignOK(e)

(* A text is accepted exactly when it fits; what is kept of a text is its longest whole-character
   prefix that fits; pushing its characters one by one arrives at the same *)
FillOK(e) == /\ e.k = IF Len(e.w) <= e.n THEN "ok" ELSE "oob"
             /\ e.p = IF Len(e.w) <= e.n THEN e.w ELSE <<>>
             /\ e.tr = Trunc(e.w, e.n)
             /\ e.len = Len(e.tr)
             /\ e.same = 1
             /\ e.full = Trunc(e.w, e.n)

(* probe: does a program that uses capacity n compile?  (n above 2^31-1 is recorded as -1) *)
ProbeOK(e) == e.ok = IF e.n \in Capacities THEN 1 ELSE 0

Holds(e) == CASE e.op = "layout" -> LayoutOK(e)
              [] e.op = "fill" -> FillOK(e)
              [] e.op = "probe" -> ProbeOK(e)
              [] OTHER -> FALSE

VARIABLES l
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ IF Holds(Trace[l]) THEN TRUE ELSE PrintT(<<"BAD", l>>)
Spec == Init /\ [][Next]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
