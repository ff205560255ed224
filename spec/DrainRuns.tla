----------------------------- MODULE DrainRuns -----------------------------
(***************************************************************************)
(* A draining iterator over its whole life: cut out of a text, stepped     *)
(* from both ends until nothing is left and beyond.  For every capacity,   *)
(* text and way of being partly consumed within the bounds:                *)
(*                                                                         *)
(*  - Whole: what came from the front, what is left and what came from the *)
(*    back make up the drained text, and what was around it stays;         *)
(*  - Fused: once it is exhausted it stays so;                             *)
(*  - a history leading there is written out; the real library executes    *)
(*    every call on a draining iterator from each of them.                 *)
(***************************************************************************)
EXTENDS Calls, TLC, Json, IOUtils

SIZE == IOEnv.SIZE
Alpha == {a1, e2, e3} \cup (IF SIZE = "big" THEN {e4} ELSE {})
Caps == IF SIZE = "big" THEN {1, 2, 3, 4, 5, 7} ELSE {1, 2, 3, 4, 5}
Around == {<<>>, e2}

VARIABLES n, pre, post, all, left, front, back, done, hist
vars == <<n, pre, post, all, left, front, back, done, hist>>
View == <<n, pre, post, all, left, front, done>>

Op1(op) == [Blank EXCEPT !.op = op]
From(t) == [Blank EXCEPT !.op = "from_str_truncate", !.w = t]
Cut(s, e) == [Blank EXCEPT !.op = "drain", !.r = <<1, s, 2, e>>]

Init == /\ n \in Caps /\ pre \in Around /\ post \in Around
        /\ \E t \in Texts(Alpha, n) :
             /\ Len(pre) + Len(t) + Len(post) <= n
             /\ LET c == Cut(Len(pre), Len(pre) + Len(t))
                    o == CHOOSE o \in Outcomes(n, pre \o t \o post, <<>>, c) : TRUE IN
                /\ o.k = "ok" /\ o.p = pre \o post
                /\ all = t /\ left = o.q
                /\ hist = <<From(pre \o t \o post), c>>
        /\ front = <<>> /\ back = <<>> /\ done = FALSE

Step(op, fromBack) ==
  LET o == CHOOSE o \in Outcomes(n, left, <<>>, Op1(op)) : TRUE IN
  /\ left' = o.p
  /\ front' = IF fromBack THEN front ELSE front \o o.v
  /\ back' = IF fromBack THEN o.v \o back ELSE back
  /\ done' = (o.k = "none")
  /\ hist' = Append(hist, Op1(op))
Next == ~done /\ (Step("d_next", FALSE) \/ Step("d_next_back", TRUE)) /\ UNCHANGED <<n, pre, post, all>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Whole == front \o left \o back = all /\ WellFormed(left) /\ WellFormed(front)
Fused == done => /\ left = <<>>
                 /\ \A c \in COp({"d_next", "d_next_back", "d_last"}) \cup CIx({"d_nth", "d_nth_back"}, 0..2) :
                      Outcomes(n, left, <<>>, c) = {[p |-> <<>>, q |-> <<>>, k |-> "none", v |-> <<>>]}
CIx1(op, k) == [Blank EXCEPT !.op = op, !.ix = k]
RECURSIVE AllNexts(_, _)
AllNexts(t, c) == LET o == CHOOSE o \in Outcomes(n, t, <<>>, c) : TRUE IN IF o.k = "none" THEN <<>> ELSE o.v \o AllNexts(o.p, c)
(* the provided methods agree with the steps *)
Agree == LET O(c) == CHOOSE o \in Outcomes(n, left, <<>>, c) : TRUE IN
         /\ O(Op1("d_collect")).v = AllNexts(left, Op1("d_next"))
         /\ O(Op1("d_rev")).v = AllNexts(left, Op1("d_next_back"))
         /\ O(Op1("d_count")).v = <<Len(Chars(AllNexts(left, Op1("d_next"))))>>
         /\ O(Op1("d_last")).v = O(Op1("d_next_back")).v
         /\ \A k \in 0..Len(Chars(left)) :
              LET x == O([Blank EXCEPT !.op = "d_nth", !.ix = k])  y == O([Blank EXCEPT !.op = "d_nth_back", !.ix = k]) IN
              /\ (x.k = "some") = (k < Len(Chars(left))) /\ (x.k = "some" => x.v = Chars(left)[k + 1])
              /\ x.p = Concat(SubSeq(Chars(left), k + 2, Len(Chars(left))))
              /\ (y.k = "some") = (k < Len(Chars(left)))
              /\ y.k = "some" => y.v = Chars(left)[Len(Chars(left)) - k]
              /\ y.p = Concat(SubSeq(Chars(left), 1, Len(Chars(left)) - k - 1))
              (* searching stops where nth does, and stepping is what it was made of *)
              /\ O(CIx1("d_find", k)) = x /\ O(CIx1("d_rfind", k)) = y
              /\ LET p == O(CIx1("d_position", k)) IN
                 /\ p.p = x.p /\ p.v = <<IF x.k = "some" THEN k + 1 ELSE 0>>
                 /\ \A q \in {O(CIx1("d_any", k)), O(CIx1("d_all", k))} : q.p = x.p
                 /\ O(CIx1("d_any", k)).v = <<BoolV(x.k = "some")>> /\ O(CIx1("d_all", k)).v = <<BoolV(x.k # "some")>>
         /\ LET mx == O(Op1("d_max"))  mn == O(Op1("d_min")) IN
            IF left = <<>> THEN mx.k = "none" /\ mn.k = "none"
            ELSE /\ \E i \in 1..Len(Chars(left)) : mx.v = Chars(left)[i]
                 /\ \E i \in 1..Len(Chars(left)) : mn.v = Chars(left)[i]
                 /\ \A i \in 1..Len(Chars(left)) : CodePoint(mn.v) <= CodePoint(Chars(left)[i]) /\ CodePoint(Chars(left)[i]) <= CodePoint(mx.v)
         (* collected or appended to a string, it is the text that was left *)
         /\ O(Op1("d_into")).q = O(Op1("d_collect")).v
         /\ O(Op1("d_extend")).q = Trunc(left, n)
Printed == PrintT("SETUP " \o ToJson([n |-> n, a |-> left, d |-> 1, h |-> hist]))
=============================================================================
