------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* The index arithmetic of editing a buffer in place, for every capacity,  *)
(* length, usize position and kind of bound, checked symbolically          *)
(* (Apalache); `Buffer` checks the same algorithm with its bytes, but only *)
(* for small capacities.                                                   *)
(*                                                                         *)
(* A text of len bytes in an array of N; the part denoted by the bounds    *)
(* (sk, sv), (ek, ev) is replaced by k bytes.  Positions are machine       *)
(* words, `at` is an arbitrary index of the array afterwards.              *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  N,
  \* @type: Int;
  len,
  \* @type: Int;
  k,
  \* @type: Int;
  sk,
  \* @type: Int;
  sv,
  \* @type: Int;
  ek,
  \* @type: Int;
  ev,
  \* @type: Int;
  at,
  \* @type: Bool;
  b0,
  \* @type: Bool;
  b1,
  \* @type: Bool;
  b2,
  \* @type: Bool;
  b3

MaxWord == 18446744073709551615
Word(x) == 0 <= x /\ x <= MaxWord

Init ==
  /\ N \in Int /\ 1 <= N /\ N <= 255
  /\ len \in Int /\ 0 <= len /\ len <= N
  /\ k \in Int /\ Word(k)
  /\ sk \in {0, 1, 2} /\ ek \in {0, 1, 2}
  /\ sv \in Int /\ Word(sv)
  /\ ev \in Int /\ Word(ev)
  /\ at \in Int /\ 0 <= at /\ at < N
  /\ b0 \in BOOLEAN /\ b1 \in BOOLEAN /\ b2 \in BOOLEAN /\ b3 \in BOOLEAN
Next == UNCHANGED <<N, len, k, sk, sv, ek, ev, at, b0, b1, b2, b3>>

(* What the bounds mean: mathematical integers *)
Start == IF sk = 0 THEN 0 ELSE IF sk = 1 THEN sv ELSE sv + 1
End == IF ek = 0 THEN len ELSE IF ek = 1 THEN ev + 1 ELSE ev
Right == Start <= End /\ End <= len /\ len - (End - Start) + k <= N

(* How they are computed: saturating words, checks one after the other *)
SatInc(x) == IF x = MaxWord THEN MaxWord ELSE x + 1
s == IF sk = 0 THEN 0 ELSE IF sk = 1 THEN sv ELSE SatInc(sv)
e == IF ek = 0 THEN len ELSE IF ek = 1 THEN SatInc(ev) ELSE ev
InText == s <= e /\ e <= len
Accepted == InText /\ k <= N /\ len + k + s - e <= N

(* Every intermediate result of `len + k + s - e` is a word once it is computed *)
NoOverflow == (InText /\ k <= N) => /\ Word(len + k) /\ Word(len + k + s) /\ Word(len + k + s - e)

(* Accepted exactly when the replacement is meaningful and fits; a saturated bound is never accepted *)
AcceptedRight == Accepted <=> Right
BoundsRight == Accepted => s = Start /\ e = End

(* The tail e..len is moved to s+k, the text is copied to s..s+k: both inside the array, and the text never into the moved tail *)
NewLen == len + k + s - e
Inside == Accepted => /\ 0 <= s /\ s + k <= N
                      /\ (len - e) + (s + k) <= N
                      /\ s + k + (len - e) = NewLen
                      /\ 0 <= NewLen /\ NewLen <= 255

(* What ends up at index `at`: i: byte i of the old array, -1 - i: byte i of the new text *)
Moved == IF s + k <= at /\ at < s + k + (len - e) THEN at - (s + k) + e ELSE at
Found == IF s <= at /\ at < s + k THEN -1 - (at - s) ELSE Moved
Wanted == IF at < s THEN at ELSE IF at < s + k THEN -1 - (at - s) ELSE at - k + (e - s)
RightByte == (Accepted /\ at < NewLen) => Found = Wanted
(* The source of a byte of the text is a byte of the text *)
FromText == (Accepted /\ at < NewLen /\ Found >= 0) => Found < len

(* Removing one character at sv, the room left for a truncating operation *)
RemoveRight == SatInc(sv) <= len <=> sv < len
RoomRight == 0 <= N - len /\ N - len <= 255

(* Cutting a text of more than k bytes at the last boundary up to k, looking at no more than three offsets; *)
(* bi: k - i is a boundary.  Offset 0 is one, and a character has at most four bytes                       *)
Boundaries == /\ k = 0 => b0
              /\ k = 1 => b1
              /\ k = 2 => b2
              /\ k = 3 => b3
              /\ k >= 3 => b0 \/ b1 \/ b2 \/ b3
Cut == IF b0 THEN k ELSE IF b1 THEN k - 1 ELSE IF b2 THEN k - 2 ELSE k - 3
CutRight == Boundaries => /\ Word(Cut)
                          /\ Cut = k => b0
                          /\ Cut = k - 1 => b1 /\ ~b0
                          /\ Cut = k - 2 => b2 /\ ~b1 /\ ~b0
                          /\ Cut = k - 3 => b3 /\ ~b2 /\ ~b1 /\ ~b0

Inv == CutRight /\ RemoveRight /\ RoomRight /\ NoOverflow /\ AcceptedRight /\ BoundsRight /\ Inside /\ RightByte /\ FromText

=============================================================================
