-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Enumerates, for property PROP, every call of CallsOf in bounded domains *)
(* with the outcomes the specification allows, as test cases for the real  *)
(* library (one JSON record per line).  SIZE selects the domains.          *)
(***************************************************************************)
EXTENDS Calls, TLC, Json, IOUtils

P == IOEnv.PROP
SIZE == IOEnv.SIZE
OUTFILE == IOEnv.OUT

(* Domains: capacity, alphabet of texts, alphabet and length of arguments, length of item lists *)
D(n, al, aw, ch, k) == [n |-> n, al |-> al, aw |-> aw, ch |-> ch, k |-> k, pad |-> 0]
(* The same near the largest capacity and around the sign bit of a byte: `pad` bytes precede everything *)
L(n, pad) == [n |-> n, al |-> {a1, e2, e3}, aw |-> {a1, e2}, ch |-> {a1, e2, e4}, k |-> 2, pad |-> pad]
LSmall(n, pad) == [n |-> n, al |-> {a1, e2}, aw |-> {a1, e2}, ch |-> {a1, e3}, k |-> 1, pad |-> pad]
Lifted == CASE P = "C16" -> {LSmall(2, 61), LSmall(3, 60)}
            [] P \in {"C06", "C09", "C19"} -> {LSmall(2, 253), LSmall(2, 126), LSmall(3, 60)}
            [] P = "C05" -> IF SIZE = "big" THEN {L(3, 252), L(3, 125), L(3, 124), L(3, 251), L(3, 60)} ELSE {LSmall(2, 253), LSmall(2, 61)}
            [] P \in {"C01", "C02", "C10", "C12", "C17"} -> IF SIZE = "big" THEN {LSmall(2, 253), LSmall(3, 124), LSmall(2, 126), LSmall(2, 61)} ELSE {LSmall(1, 254)}
            [] OTHER -> IF SIZE = "big" THEN {L(3, 252), L(3, 125), L(3, 124), L(3, 251), L(3, 60)} ELSE {LSmall(2, 253), LSmall(3, 124), LSmall(2, 61)}
Tiny == CASE P = "C05" -> {D(1, {a1}, {a1}, {a1, e2}, 1), D(3, {a1, e2, e3}, {a1, e2}, {a1, e2, e4}, 2)}
          [] P = "C06" -> {D(2, {a1, e2}, {a1}, {a1}, 1), D(5, {a1, e2, e3, e4}, {a1}, {a1}, 1)}
          [] P = "C07" -> {D(1, {a1, sp}, {a1}, {a1}, 1), D(5, {a1, sp, n2, e3}, {a1}, {a1}, 1), D(7, {e2, w3, sp}, {a1}, {a1}, 1)}
          [] P = "C08" -> {D(n, {}, {a1}, {a1}, 3) : n \in {1, 2, 3, 4, 5, 7}}
          [] P = "C09" -> {D(4, {a1, a2, e2, e3, e4}, {a1, a2, e2, e3, e4}, {a1}, 1)}
          [] P = "C11" -> {D(2, {a1, a2, e2}, {a1}, {a1}, 1), D(4, {a1, a2, e2, e4}, {a1}, {a1}, 1)}
          [] P \in {"C01", "C02", "C10", "C12", "C17"} -> {D(1, {a1}, {a1, e2}, {a1, e2}, 1), D(3, {a1, e3}, {a1, e2}, {a1, e3}, 1)}
          [] OTHER -> {D(1, {a1}, {a1, e2}, {a1, e2}, 2), D(2, {a1, e2}, {a1, e2}, {a1, e2}, 2),
                       D(4, {a1, e2, e3, e4}, {a1, e2, e4}, {a1, e2, e3, e4}, 2)}
Big ==  CASE P = "C05" -> {D(2, {a1, e2}, {a1, e2, e3}, {a1, e2, e3}, 2), D(4, {a1, e2, e3, e4}, {a1, e2}, {a1, e2, e3, e4}, 2),
                           D(5, {a1, e2, e4}, {a1, e3}, {a1, e2, e3, e4}, 2)}
          [] P = "C06" -> {D(7, {a1, e2, e3, e4}, {a1}, {a1}, 1)}
          [] P = "C07" -> {D(7, {a1, sp, n2, e3}, {a1}, {a1}, 1), D(8, {e2, w3, sp}, {a1}, {a1}, 1)}
          [] P = "C08" -> {D(n, {}, {a1}, {a1}, 5) : n \in {1, 2, 3, 4, 5, 7}}
          [] P = "C09" -> {D(5, {a1, a2, e2, e3, e4}, {a1, a2, e2, e3, e4}, {a1}, 1)}
          [] P = "C11" -> {D(7, {a1, a2, e2, e3}, {a1}, {a1}, 1)}
          [] P \in {"C01", "C02", "C10", "C12", "C17"} -> {D(4, {a1, e2, e4}, {a1, e2}, {a1, e2, e4}, 2)}
          [] OTHER -> {D(5, {a1, e2, e3, e4}, {a1, e2, e4}, {a1, e2, e3, e4}, 3)}
Domains == Lifted \cup (IF P = "C16" THEN {} ELSE IF SIZE = "big" THEN Tiny \cup Big ELSE Tiny)

Filler(k) == [i \in 1..k |-> 120]
Constructors == {"try_from_str", "parse", "from_str_truncate", "from_ref", "eq_str", "de"}
Positional == {"insert_str_truncate", "try_insert", "try_insert_str", "remove", "truncate", "split_off", "display_sink"}
Ranged == {"replace_range", "drain", "index", "index_mut_upper", "index_mut_lower"}
Lift(c, k) ==
  IF k = 0 THEN c
  ELSE IF c.op \in Constructors THEN [c EXCEPT !.w = Filler(k) \o @]
  ELSE IF c.op \in {"try_from_iterator", "from_iterator_truncate", "collect_strs"}
       THEN LET ws == <<Filler(k)>> \o c.ws IN [c EXCEPT !.ws = ws, !.ys = ws]
  ELSE IF c.op \in {"try_from_chars", "from_chars_truncate", "collect_chars"}
       THEN LET ws == [i \in 1..k |-> <<120>>] \o c.ws IN [c EXCEPT !.ws = ws, !.ys = ws]
  ELSE IF c.op \in {"try_from_utf16", "from_utf16_truncate", "from_utf16_lossy"} THEN [c EXCEPT !.u = Filler(k) \o @]
  ELSE IF c.op \in Positional THEN [c EXCEPT !.ix = IF @ > 250 THEN @ ELSE @ + k]
  ELSE IF c.op \in Ranged
       THEN [c EXCEPT !.r = <<@[1], IF @[1] = 0 \/ @[2] > 250 THEN @[2] ELSE @[2] + k, @[3], IF @[3] = 0 \/ @[4] > 250 THEN @[4] ELSE @[4] + k>>]
  ELSE IF c.op = "retain" THEN [c EXCEPT !.bs = [i \in 1..k |-> 1] \o @]
  ELSE c
IndexOps == {"index", "index_mut_upper", "index_mut_lower"}
Expressible(c) == c.op \in IndexOps => (c.r[2] <= 255 /\ c.r[4] <= 255)

CallsIn(x, A) ==
  LET W == Texts(x.aw, x.n + 1) IN
  IF P \in {"C01", "C02", "C10", "C12", "C16", "C17"} THEN CallsOf("C16", x.n, A, W, x.ch, x.k) \cup AllCalls(x.n, A, W, x.ch, x.k) ELSE CallsOf(P, x.n, A, W, x.ch, x.k)

(* The text of the second object: of interest where it is compared or exchanged *)
Seconds(c, x) == IF c.op \in {"cmp", "hash", "max", "min", "d_cmp", "d_hash", "swap", "clone_from", "d_extend"}
                 THEN {Filler(x.pad) \o t : t \in Texts(x.al, Min2(x.n, 4))}
                 ELSE IF SecondString(c.op) \/ SecondDrain(c.op) THEN {a1} ELSE {<<>>}

(* One state per (domain, text): reaching it writes its cases to a file of its own *)
Pairs == SetToSeq(UNION {{<<x, A>> : A \in Texts(x.al, x.n)} : x \in Domains})
CasesFor(x, A) ==
  LET N == x.n + x.pad
      T == Filler(x.pad) \o A
      cs == SetToSeq(UNION {{<<c, B>> : B \in Seconds(c, x)} : c \in CallsIn(x, A)})
      ls == SelectSeq([j \in 1..Len(cs) |-> <<Lift(cs[j][1], x.pad), cs[j][2]>>], LAMBDA y : Expressible(y[1])) IN
  [j \in 1..Len(ls) |-> [n |-> N, a |-> T, b |-> ls[j][2], c |-> ls[j][1],
                         o |-> SetToSeq(Outcomes(N, T, ls[j][2], ls[j][1]))]]

VARIABLES at, count
Init == at = 0 /\ count = 0
Choose == at = 0 /\ \E i \in 1..Len(Pairs) : at' = i /\ count' = 0
Write == /\ at > 0
         /\ at' = -at
         /\ LET cs == CasesFor(Pairs[at][1], Pairs[at][2]) IN
            /\ ndJsonSerialize(OUTFILE \o "." \o ToString(at), cs)
            /\ count' = Len(cs)
Spec == Init /\ [][Choose \/ Write]_<<at, count>>
=============================================================================
