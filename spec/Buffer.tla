------------------------------- MODULE Buffer -------------------------------
(***************************************************************************)
(* The representation: an array of N bytes and a length, edited in place   *)
(* by the algorithm the library uses (move the tail, copy the text in, set *)
(* the length), so that bytes of earlier texts stay behind the end.        *)
(*                                                                         *)
(*  - Refines: whatever is behind the end, every call on the buffer shows  *)
(*    one of the outcomes that ArrayString.tla allows for the text alone;  *)
(*  - InBounds: no move or copy touches a byte outside the array;          *)
(*  - every reachable buffer is written out with a shortest history that   *)
(*    leads to it.  The real library executes every call from each of them *)
(*    (`cases --setups`), so that hidden state is covered exhaustively for *)
(*    small capacities, instead of only texts.                             *)
(***************************************************************************)
EXTENDS Calls, TLC, Json, IOUtils

SIZE == IOEnv.SIZE

Alpha(N) == IF N = 5 THEN {a1, e2} ELSE {a1, e2, e3} \cup (IF N = 4 THEN {e4} ELSE {})
Caps == IF SIZE = "big" THEN 1..5 ELSE 1..4

VARIABLES n, arr, size, hist
vars == <<n, arr, size, hist>>
View == <<n, arr, size>>

Zero(N) == [i \in 1..N |-> 0]
Buf(a, k) == [a |-> a, k |-> k]
TextOf(b) == SubSeq(b.a, 1, b.k)
NN(b) == Len(b.a)

(* memmove / memcpy within an array, 0-based offsets *)
Move(a, src, dst, k) == [i \in 1..Len(a) |-> IF i > dst /\ i <= dst + k THEN a[i - dst + src] ELSE a[i]]
Copy(a, dst, w) == [i \in 1..Len(a) |-> IF i > dst /\ i <= dst + Len(w) THEN w[i - dst] ELSE a[i]]

(* is_char_boundary looks only at the text *)
Edge(b, i) == i <= b.k /\ Bd(TextOf(b), i)

R(b, q, k, v) == [b |-> b, q |-> q, k |-> k, v |-> v]
Err(b, k) == R(b, <<>>, k, <<>>)
Done(b) == R(b, <<>>, "ok", <<>>)

(* replace_range, with its checks in order *)
ReplaceB(b, s, e, w) ==
  LET N == NN(b) IN
  IF s > e \/ e > b.k \/ Len(w) > N THEN Err(b, "oob")
  ELSE IF ~Edge(b, s) \/ ~Edge(b, e) THEN Err(b, "utf8")
  ELSE IF b.k + Len(w) + s - e > N THEN Err(b, "oob")
  ELSE LET moved == IF e # s + Len(w) THEN Move(b.a, e, s + Len(w), b.k - e) ELSE b.a IN
       Done(Buf(Copy(moved, s, w), b.k + Len(w) + s - e))
(* the offsets of that move and copy *)
Touches(b, s, e, w) == {e + b.k - e, s + Len(w) + b.k - e, s + Len(w)}

PushB(b, w) == LET r == ReplaceB(b, b.k, b.k, w) IN IF r.k = "ok" THEN r ELSE Err(b, "oob")
PushTruncB(b, w) == Done(PushB(b, Trunc(w, NN(b) - b.k)).b)
FreshB(N, w) == PushTruncB(Buf(Zero(N), 0), w).b
RECURSIVE PushAll(_, _)
PushAll(b, ws) == IF ws = <<>> THEN b ELSE PushAll(PushB(b, Head(ws)).b, Tail(ws))
PopB(b) == LET t == TextOf(b) IN
           IF t = <<>> THEN R(b, <<>>, "none", <<>>)
           ELSE R(Buf(b.a, LastStart(t)), <<>>, "some", Suffix(t, LastStart(t)))
RemoveB(b, i) ==
  IF i + 1 > b.k THEN Err(b, "oob")
  ELSE IF ~Edge(b, i) THEN Err(b, "utf8")
  ELSE LET e == CharEnd(TextOf(b), i)  r == ReplaceB(b, i, e, <<>>) IN R(r.b, <<>>, r.k, Slice(TextOf(b), i, e))
DrainB(b, s, e) ==
  IF s > e \/ e > b.k THEN Err(b, "oob")
  ELSE IF ~Edge(b, s) \/ ~Edge(b, e) THEN Err(b, "utf8")
  ELSE R(ReplaceB(b, s, e, <<>>).b, Slice(TextOf(b), s, e), "ok", <<>>)
TrimB(b) ==
  LET t == TextOf(b)
      keep == Trimmed(t)
      start == IF keep = <<>> THEN b.k ELSE CHOOSE i \in 0..b.k : Edge(b, i) /\ (\A j \in 0..(i-1) : Edge(b, j) => IsWs(CharAt(t, j))) /\ ~IsWs(CharAt(t, i))
  IN IF keep = <<>> THEN Done(Buf(b.a, 0))
     ELSE LET cut == ReplaceB(b, start + Len(keep), b.k, <<>>).b IN ReplaceB(cut, 0, start, <<>>)

Impl(b, c) ==
  LET N == NN(b)  t == TextOf(b) IN
  CASE c.op = "from_str_truncate" -> Done(FreshB(N, c.w))
    [] c.op = "try_from_str" -> LET r == PushB(Buf(Zero(N), 0), c.w) IN IF r.k = "ok" THEN r ELSE Err(b, "oob")
    [] c.op \in {"try_push", "try_push_str"} -> PushB(b, c.w)
    [] c.op \in {"push_str_truncate", "add"} -> PushTruncB(b, c.w)
    [] c.op \in {"try_insert", "try_insert_str"} -> IF c.ix > b.k THEN Err(b, "oob") ELSE ReplaceB(b, c.ix, c.ix, c.w)
    [] c.op = "insert_str_truncate" ->
         IF c.ix > b.k THEN Err(b, "oob") ELSE ReplaceB(b, c.ix, c.ix, Trunc(c.w, N - b.k))
    [] c.op = "replace_range" -> ReplaceB(b, RangeStart(c.r), RangeEnd(c.r, b.k), c.w)
    [] c.op = "remove" -> RemoveB(b, c.ix)
    [] c.op = "truncate" -> LET k == Min2(b.k, c.ix) IN IF Edge(b, k) THEN Done(Buf(b.a, k)) ELSE Err(b, "utf8")
    [] c.op = "pop" -> PopB(b)
    [] c.op = "trim" -> TrimB(b)
    [] c.op = "clear" -> Done(Buf(b.a, 0))
    [] c.op = "retain" ->
         LET cs == Chars(t) IN Done(PushAll(Buf(Zero(N), 0), SelectSeq([i \in 1..Len(cs) |-> IF c.bs[i] = 1 THEN cs[i] ELSE <<>>], LAMBDA x : x # <<>>)))
    [] c.op \in {"extend_chars", "extend_char_refs", "extend_strs"} ->
         PushTruncB(b, TextOf(FreshB(N, Concat(c.ws))))
    [] c.op = "drain" -> DrainB(b, RangeStart(c.r), RangeEnd(c.r, b.k))
    [] c.op = "split_off" -> DrainB(b, c.ix, b.k)
    [] c.op = "d_next" -> LET r == RemoveB(b, 0) IN IF r.k = "ok" THEN R(r.b, <<>>, "some", r.v) ELSE R(b, <<>>, "none", <<>>)
    [] c.op = "d_next_back" -> PopB(b)

Modelled == {"from_str_truncate", "try_from_str", "try_push", "try_push_str", "push_str_truncate", "add", "try_insert", "try_insert_str",
             "insert_str_truncate", "replace_range", "remove", "truncate", "pop", "trim", "clear", "retain",
             "extend_chars", "extend_char_refs", "extend_strs", "drain", "split_off", "d_next", "d_next_back"}

Args(N) == Texts({a1, e2}, N + 1)
CallsHere(N, t) ==
  {c \in UNION {CallsOf(P, N, t, Args(N), {a1, sp, e3}, 1) : P \in {"C03", "C04", "C05", "C06", "C07"}} : c.op \in Modelled}

Here == Buf(arr, size)
Init == /\ n \in Caps /\ arr = Zero(n) /\ size = 0 /\ hist = <<>>

(* the moves that shape buffers: a fresh text, an edit in place, a cut *)
Moves == CW({"from_str_truncate"}, Texts(Alpha(n), n))
         \cup {c \in CRW({"replace_range"}, {<<1, x, 2, y>> : x \in 0..size, y \in 0..size}, Texts(Alpha(n), n)) : c.r[2] <= c.r[4]}
         \cup CIx({"truncate"}, 0..size)
Next == \E c \in Moves : LET r == Impl(Here, c) IN
          /\ r.k = "ok"
          /\ n' = n /\ arr' = r.b.a /\ size' = r.b.k
          /\ hist' = IF c.op = "from_str_truncate" THEN <<c>> ELSE Append(hist, c)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == Len(arr) = n /\ size <= n /\ WellFormed(TextOf(Here))
Refines == n > (IF SIZE = "big" THEN 4 ELSE 3) \/ \A c \in CallsHere(n, TextOf(Here)) :
             LET r == Impl(Here, c)
                 err == r.k \in ErrorKinds IN
             /\ \E o \in Outcomes(n, TextOf(Here), <<>>, c) : o.p = TextOf(r.b) /\ o.q = r.q /\ o.k = r.k /\ o.v = r.v
             /\ Len(r.b.a) = n
             /\ err => r.b = Here                   \* not even a byte behind the end changes
InBounds == \A s, e \in 0..size : \A w \in Args(n) :
              ReplaceB(Here, s, e, w).k = "ok" => \A x \in Touches(Here, s, e, w) : x <= n
(* the history really leads here *)
RECURSIVE Run(_, _)
Run(b, h) == IF h = <<>> THEN b ELSE Run(Impl(b, Head(h)).b, Tail(h))
Reached == Run(Buf(Zero(n), 0), hist) = Here
Printed == PrintT("SETUP " \o ToJson([n |-> n, a |-> TextOf(Here), h |-> hist, arr |-> arr]))
=============================================================================
