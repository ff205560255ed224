------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* Error values.  A kind is one of Kinds; the specific errors and the      *)
(* standard library's errors each belong to one kind; an error value is    *)
(* its kind and nothing else, so conversion keeps it and every comparison, *)
(* hash and message is a function of it.                                   *)
(* Events recorded from the real library are judged one by one.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Kinds == {"utf8", "utf16", "oob"}

(* Kind of each source of an error *)
KindOf == [ Utf8 |-> "utf8", Utf16 |-> "utf16", OutOfBounds |-> "oob",
            Utf8Error |-> "utf8", DecodeUtf16Error |-> "utf16", EncodeUtf16 |-> "utf16" ]
Sources == DOMAIN KindOf

BoolV(b) == IF b THEN 1 ELSE 0

(* A message of its own for each kind: any injective function will do *)
Holds(e) ==
  CASE e.op = "conv" -> e.src \in Sources /\ e.got = KindOf[e.src]
    [] e.op = "pair" -> LET same == BoolV(e.x = e.y) IN
                        /\ e.x \in Kinds /\ e.y \in Kinds
                        /\ e.eq = same /\ e.ne = 1 - same
                        /\ e.hash = same /\ e.stream = same
                        /\ e.shown = same /\ e.debug = same
                        /\ e.copy = 1
    [] e.op \in {"show", "debug"} -> e.x \in Kinds /\ e.y \in Kinds /\ e.same = BoolV(e.x = e.y)
    [] e.op = "self" -> e.ok = 1
    [] e.op = "sink" -> e.failed = 1
    [] OTHER -> FALSE

VARIABLES l, seen     \* next line; the conversions and pairs seen so far
vars == <<l, seen>>
Init == l = 1 /\ seen = {}
Tag(e) == CASE e.op = "conv" -> {<<"conv", e.src>>}
            [] e.op = "pair" -> {<<"pair", e.x, e.y>>}
            [] OTHER -> {}
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ IF Holds(e) THEN TRUE ELSE PrintT(<<"BAD", l>>)
           /\ seen' = seen \cup Tag(e)
Spec == Init /\ [][Next]_vars

(* Every conversion and every pair of kinds is there *)
Everything == {<<"conv", s>> : s \in Sources} \cup {<<"pair", x, y>> : x \in Kinds, y \in Kinds}
Complete == l = Len(Trace) + 1 => seen = Everything
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
