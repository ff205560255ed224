---------------------------- MODULE ArrayString ----------------------------
(***************************************************************************)
(* The reference semantics of the library.                                 *)
(*                                                                         *)
(* Outcomes(N, A, B, c) is the set of outcomes the library is allowed to   *)
(* show when the operation (call) c is applied to an object holding text A *)
(* of capacity N, with B the text of the second object involved (source of *)
(* a comparison, destination of a copy, split or drain; <<>> if none).     *)
(* An outcome is [p, q, k, v]: text of the first and second object         *)
(* afterwards, kind of the reply, value of the reply (bytes or integers).  *)
(* More than one outcome means that the library may choose.                *)
(*                                                                         *)
(* Calls are records with field op and these further fields where needed:  *)
(*   w  text        ws  list of texts     u  16-bit units   ix  position   *)
(*   r  range bounds <<startKind, start, endKind, end>>, kinds:            *)
(*      0 unbounded, 1 included, 2 excluded                                *)
(*   bs answers of a predicate, by call                                    *)
(***************************************************************************)
EXTENDS Utf

Out(p, q, k, v) == [p |-> p, q |-> q, k |-> k, v |-> v]
(* Failing leaves both objects alone; any of the error kinds in ks may be reported *)
Fail(A, B, ks) == {Out(A, B, k, <<>>) : k \in ks}
Ok(p, q) == {Out(p, q, "ok", <<>>)}
OkV(p, q, v) == {Out(p, q, "ok", v)}

ErrorKinds == {"oob", "utf8", "utf16", "fmt", "err"}

RangeStart(r) == CASE r[1] = 0 -> 0 [] r[1] = 1 -> r[2] [] OTHER -> r[2] + 1
RangeEnd(r, len) == CASE r[3] = 0 -> len [] r[3] = 1 -> r[4] + 1 [] OTHER -> r[4]

(* Errors that apply to position i / range s..e of text A *)
PosErrs(A, i) == (IF i > Len(A) THEN {"oob"} ELSE {})
                 \cup (IF i < Len(A) /\ ~Bd(A, i) THEN {"utf8"} ELSE {})
RangeErrs(A, s, e) == (IF s > e \/ e > Len(A) THEN {"oob"} ELSE {})
                      \cup (IF (s < Len(A) /\ ~Bd(A, s)) \/ (e < Len(A) /\ ~Bd(A, e)) THEN {"utf8"} ELSE {})

(* Replace s..e of A by w, all or nothing *)
Replace(N, A, B, s, e, w) ==
  LET errs == RangeErrs(A, s, e)
              \cup (IF (s <= e /\ e <= Len(A) /\ Len(A) - (e - s) + Len(w) > N) \/ Len(w) > N THEN {"oob"} ELSE {})
  IN IF errs # {} THEN Fail(A, B, errs)
     ELSE Ok(Prefix(A, s) \o w \o Suffix(A, e), B)

(* Append pieces one after the other, each all or nothing, stopping at the first that does not fit *)
WritePieces(N, A, ws) ==
  LET Step(acc, w) == IF acc.stop \/ Len(acc.t) + Len(w) > N THEN [acc EXCEPT !.stop = TRUE]
                      ELSE [acc EXCEPT !.t = @ \o w]
  IN FoldLeft(Step, [t |-> A, stop |-> FALSE], ws)

BuildAll(N, A, B, w) == IF Len(w) <= N THEN Ok(w, B) ELSE Fail(A, B, {"oob"})

Utf16All(ds) == Concat(SelectSeq(ds, LAMBDA d : d # <<>>))
HasBad(ds) == \E i \in 1..Len(ds) : ds[i] = <<>>
FirstBad(ds) == CHOOSE i \in 1..Len(ds) : ds[i] = <<>> /\ \A j \in 1..(i-1) : ds[j] # <<>>

(* The slice that an index expression addresses; s > e, out of bounds or inside a character panics *)
SliceOK(A, s, e) == s <= e /\ e <= Len(A) /\ Bd(A, s) /\ Bd(A, e)

BoolV(b) == IF b THEN 1 ELSE 0
(* ==, !=, <, <=, >, >=, cmp, partial_cmp *)
Cmp8(A, B) == LET c == Cmp(A, B) IN
  <<BoolV(A = B), BoolV(A # B), BoolV(c = 0), BoolV(c <= 1), BoolV(c = 2), BoolV(c >= 1), c, c>>

(* Drain steps: n-th remaining character from either end *)
DropChars(cs, n) == SubSeq(cs, n+1, Len(cs))
KeepChars(cs, n) == SubSeq(cs, 1, Len(cs) - n)
NthOut(A, B, n) ==
  LET cs == Chars(A) IN
  IF n < Len(cs) THEN {Out(Concat(DropChars(cs, n+1)), B, "some", cs[n+1])}
  ELSE {Out(<<>>, B, "none", <<>>)}
NthBackOut(A, B, n) ==
  LET cs == Chars(A) IN
  IF n < Len(cs) THEN {Out(Concat(KeepChars(cs, n+1)), B, "some", cs[Len(cs)-n])}
  ELSE {Out(<<>>, B, "none", <<>>)}
Reversed(A) == Concat(Reverse(Chars(A)))
(* the text of the largest and of the smallest of two; code point order is byte order *)
MaxOf(A, B) == IF Cmp(A, B) = 2 THEN A ELSE B
MinOf(A, B) == IF Cmp(A, B) = 2 THEN B ELSE A

Outcomes(N, A, B, c) ==
  CASE c.op \in {"new", "default"} -> Ok(<<>>, B)
    (*--- building and appending, all or nothing -------------------------*)
    [] c.op \in {"try_from_str", "parse"} -> BuildAll(N, A, B, c.w)
    [] c.op \in {"try_from_iterator", "try_from_chars"} -> BuildAll(N, A, B, Concat(c.ys))
    [] c.op \in {"try_push", "try_push_str"} ->
         IF Len(A) + Len(c.w) <= N THEN Ok(A \o c.w, B) ELSE Fail(A, B, {"oob"})
    [] c.op \in {"write_str", "write_char"} ->
         IF Len(A) + Len(c.w) <= N THEN Ok(A \o c.w, B) ELSE Fail(A, B, {"fmt"})
    [] c.op = "write_fmt" ->
         LET r == WritePieces(N, A, c.ws) IN {Out(r.t, B, IF r.stop THEN "fmt" ELSE "ok", <<>>)}
    (*--- truncating ------------------------------------------------------*)
    [] c.op \in {"from_str_truncate", "from_ref"} -> Ok(Trunc(c.w, N), B)
    [] c.op \in {"from_iterator_truncate", "collect_strs", "from_chars_truncate", "collect_chars"} ->
         Ok(Trunc(Concat(c.ys), N), B)
    [] c.op \in {"push_str_truncate", "add"} -> Ok(A \o Trunc(c.w, N - Len(A)), B)
    [] c.op \in {"extend_chars", "extend_char_refs", "extend_strs"} ->
         Ok(A \o Trunc(Concat(c.ys), N - Len(A)), B)
    [] c.op = "insert_str_truncate" ->
         LET errs == PosErrs(A, c.ix) IN
         IF errs # {} THEN Fail(A, B, errs)
         ELSE Ok(Prefix(A, c.ix) \o Trunc(c.w, N - Len(A)) \o Suffix(A, c.ix), B)
    (*--- UTF-16 -----------------------------------------------------------*)
    [] c.op = "try_from_utf16" ->
         LET ds == DecodeUtf16(c.u)  all == Utf16All(ds) IN
         IF HasBad(ds) THEN Fail(A, B, {"utf16"} \cup (IF Len(all) > N THEN {"oob"} ELSE {}))
         ELSE BuildAll(N, A, B, all)
    [] c.op = "from_utf16_truncate" ->
         LET ds == DecodeUtf16(c.u) IN
         IF ~HasBad(ds) THEN Ok(Trunc(Concat(ds), N), B)
         ELSE LET before == Concat(SubSeq(ds, 1, FirstBad(ds) - 1)) IN
              Fail(A, B, {"utf16"}) \cup (IF Len(before) > N THEN Ok(Trunc(before, N), B) ELSE {})
    [] c.op = "from_utf16_lossy" ->
         LET ds == DecodeUtf16(c.u) IN
         Ok(Trunc(Concat([i \in 1..Len(ds) |-> IF ds[i] = <<>> THEN Replacement ELSE ds[i]]), N), B)
    (*--- positional edits -------------------------------------------------*)
    [] c.op \in {"try_insert", "try_insert_str"} -> Replace(N, A, B, c.ix, c.ix, c.w)
    [] c.op = "replace_range" -> Replace(N, A, B, RangeStart(c.r), RangeEnd(c.r, Len(A)), c.w)
    [] c.op = "remove" ->
         LET errs == (IF c.ix >= Len(A) THEN {"oob"} ELSE IF ~Bd(A, c.ix) THEN {"utf8"} ELSE {}) IN
         IF errs # {} THEN Fail(A, B, errs)
         ELSE OkV(Prefix(A, c.ix) \o Suffix(A, CharEnd(A, c.ix)), B, CharAt(A, c.ix))
    [] c.op = "truncate" ->
         IF c.ix >= Len(A) THEN Ok(A, B)
         ELSE IF Bd(A, c.ix) THEN Ok(Prefix(A, c.ix), B) ELSE Fail(A, B, {"utf8"})
    [] c.op = "split_off" ->
         LET errs == PosErrs(A, c.ix) IN
         IF errs # {} THEN Fail(A, B, errs) ELSE Ok(Prefix(A, c.ix), Suffix(A, c.ix))
    [] c.op = "drain" ->
         LET s == RangeStart(c.r)  e == RangeEnd(c.r, Len(A))  errs == RangeErrs(A, s, e) IN
         IF errs # {} THEN Fail(A, B, errs)
         ELSE Ok(Prefix(A, s) \o Suffix(A, e), Slice(A, s, e))
    (*--- shrinking --------------------------------------------------------*)
    [] c.op = "pop" ->
         IF A = <<>> THEN {Out(A, B, "none", <<>>)}
         ELSE {Out(Prefix(A, LastStart(A)), B, "some", Suffix(A, LastStart(A)))}
    [] c.op = "trim" -> Ok(Trimmed(A), B)
    [] c.op = "clear" -> Ok(<<>>, B)
    [] c.op = "retain" ->
         LET cs == Chars(A) IN
         IF Len(c.bs) # Len(cs) THEN {}
         ELSE Ok(Concat([i \in 1..Len(cs) |-> IF c.bs[i] = 1 THEN cs[i] ELSE <<>>]), B)
    (*--- mutable views ----------------------------------------------------*)
    [] c.op \in {"upper_as_mut_str", "upper_deref_mut", "upper_as_mut", "upper_borrow_mut"} -> Ok(Upper(A), B)
    [] c.op \in {"lower_as_mut_str", "lower_deref_mut", "lower_as_mut", "lower_borrow_mut"} -> Ok(Lower(A), B)
    [] c.op \in {"index", "index_mut_upper", "index_mut_lower"} /\ c.r[3] = 3 ->
         (* An inclusive range iterated to its end addresses nothing, at its end or one behind it *)
         LET here == SliceOK(A, c.r[4], c.r[4])  behind == SliceOK(A, c.r[4] + 1, c.r[4] + 1) IN
         (IF here \/ behind THEN OkV(A, B, <<>>) ELSE {}) \cup (IF here /\ behind THEN {} ELSE {Out(A, B, "panic", <<>>)})
    [] c.op = "index" /\ c.r[3] # 3 ->
         LET s == RangeStart(c.r)  e == RangeEnd(c.r, Len(A)) IN
         IF SliceOK(A, s, e) THEN OkV(A, B, Slice(A, s, e)) ELSE {Out(A, B, "panic", <<>>)}
    [] c.op \in {"index_mut_upper", "index_mut_lower"} /\ c.r[3] # 3 ->
         LET s == RangeStart(c.r)  e == RangeEnd(c.r, Len(A)) IN
         IF SliceOK(A, s, e)
         THEN OkV(Prefix(A, s) \o (IF c.op = "index_mut_upper" THEN Upper(Slice(A, s, e)) ELSE Lower(Slice(A, s, e)))
                  \o Suffix(A, e), B, Slice(A, s, e))
         ELSE {Out(A, B, "panic", <<>>)}
    (*--- values -----------------------------------------------------------*)
    [] c.op \in {"copy", "clone", "clone_from"} -> Ok(A, A)
    [] c.op \in {"swap"} -> Ok(B, A)
    [] c.op \in {"from_array"} -> Ok(A, B)          \* CacheString: there and back
    [] c.op = "noop" -> Ok(A, B)
    (*--- reading ----------------------------------------------------------*)
    [] c.op = "cmp" -> OkV(A, B, Cmp8(A, B))
    [] c.op = "max" -> OkV(A, B, MaxOf(A, B))
    [] c.op = "min" -> OkV(A, B, MinOf(A, B))
    [] c.op = "eq_str" -> OkV(A, B, <<BoolV(A = c.w), BoolV(A # c.w), BoolV(A = c.w), BoolV(A # c.w)>>)
    [] c.op = "hash" -> Ok(A, B)                    \* streams are compared by HashOK
    [] c.op = "debug" -> OkV(A, B, <<1, 1>>)       \* both debug forms show the text as str's own does
    [] c.op \in {"display", "display_spec"} -> OkV(A, B, A)   \* whatever width, fill or precision is asked for
    [] c.op = "display_sink" ->                     \* a sink that refuses after ix bytes in total
         IF Len(A) <= c.ix THEN OkV(A, B, A) ELSE {Out(A, B, "fmt", <<>>)}
    (*--- draining iterators (the first object is the drain) ---------------*)
    [] c.op = "d_next" -> NthOut(A, B, 0)
    [] c.op = "d_next_back" -> NthBackOut(A, B, 0)
    [] c.op = "d_nth" -> NthOut(A, B, c.ix)
    [] c.op = "d_nth_back" -> NthBackOut(A, B, c.ix)
    [] c.op = "d_count" -> {Out(<<>>, B, "ok", <<Len(Chars(A))>>)}
    [] c.op = "d_last" -> IF A = <<>> THEN {Out(<<>>, B, "none", <<>>)}
                          ELSE {Out(<<>>, B, "some", Suffix(A, LastStart(A)))}
    [] c.op \in {"d_collect", "d_fold", "d_for"} -> {Out(<<>>, B, "ok", A)}
    [] c.op \in {"d_rev", "d_rfold"} -> {Out(<<>>, B, "ok", Reversed(A))}
    (* searching with a predicate that answers differently from its ix-th call on *)
    [] c.op = "d_find" -> NthOut(A, B, c.ix)
    [] c.op = "d_rfind" -> NthBackOut(A, B, c.ix)
    [] c.op \in {"d_position", "d_any", "d_all"} ->
         LET hit == c.ix < Len(Chars(A)) IN
         {Out(IF hit THEN Concat(DropChars(Chars(A), c.ix + 1)) ELSE <<>>, B, "ok",
              <<CASE c.op = "d_position" -> (IF hit THEN c.ix + 1 ELSE 0) [] c.op = "d_any" -> BoolV(hit) [] OTHER -> BoolV(~hit)>>)}
    [] c.op \in {"d_max", "d_min"} ->
         IF A = <<>> THEN {Out(<<>>, B, "none", <<>>)}
         ELSE LET cs == Chars(A) IN {Out(<<>>, B, "some", FoldLeft(LAMBDA x, y : IF c.op = "d_max" THEN MaxOf(x, y) ELSE MinOf(x, y), cs[1], cs))}
    (* handed to a string as an iterator of characters (the second object) *)
    [] c.op = "d_into" -> {Out(<<>>, A, "ok", <<>>)}
    [] c.op = "d_extend" -> {Out(<<>>, B \o Trunc(A, N - Len(B)), "ok", <<>>)}
    [] c.op = "d_drop" -> {Out(<<>>, B, "ok", <<>>)}
    [] c.op = "d_default" -> {Out(<<>>, B, "ok", <<>>)}
    [] c.op \in {"d_copy", "d_clone"} -> Ok(A, A)
    [] c.op = "d_cmp" -> OkV(A, B, Cmp8(A, B))
    [] c.op = "d_hash" -> Ok(A, B)
    [] c.op = "d_size_hint" -> Ok(A, B)             \* any sound hint is allowed: HintOK
    (*--- serde: fm is the form in which the format delivers or receives the value *)
    [] c.op = "ser" -> {Out(A, B, "str", A)}
    [] c.op = "de" -> IF WellFormed(c.w) THEN Ok(Trunc(c.w, N), B) ELSE Fail(A, B, {"err"})
    [] c.op = "de_other" -> Fail(A, B, {"err"})     \* the format delivers something that is not text
    [] OTHER -> {}

(* Size hint of a draining iterator: lower bound, has upper bound, upper bound *)
HintOK(A, h) == LET n == Len(Chars(A)) IN h[1] <= n /\ (h[2] = 1 => n <= h[3])

(* Iterator discipline.  ys: items the operation pulled, en: 1 if it saw the end.
   Never an item after the pulled ones alone exceeded the capacity; no early stop
   while there is room; a fallible operation succeeds only having seen the end,
   and fails only because of what it pulled. *)
FallibleIter == {"try_from_iterator", "try_from_chars"}
TruncatingIter == {"from_iterator_truncate", "collect_strs", "from_chars_truncate", "collect_chars"}
ExtendIter == {"extend_chars", "extend_char_refs", "extend_strs"}
IterOps == FallibleIter \cup TruncatingIter \cup ExtendIter
PullOK(N, A, op, ys, en, k) ==
  LET all == Len(Concat(ys))
      front == IF ys = <<>> THEN 0 ELSE all - Len(ys[Len(ys)])
      base == IF op \in ExtendIter THEN Len(A) ELSE 0
  IN /\ front <= N
     /\ (op \in FallibleIter /\ k = "ok") => en = 1
     /\ (op \in FallibleIter /\ k = "oob") => all > N
     /\ (op \notin FallibleIter /\ en = 0) => base + all >= N

(* Arguments that answer differently each time they are asked.  Of a text, it is left open which answers are used,
   as long as the outcome is sound; a range denotes one part of the text throughout the operation. *)
WeirdOps == {"weird_replace", "weird_push", "weird_insert", "weird_from", "weird_range", "weird_drain"}

Patched(p, i, w, A, k) == p = Prefix(A, i) \o w \o Suffix(A, i + k)
WeirdOK(A, B, e) ==
  IF e.k \in ErrorKinds THEN e.p = A /\ e.q = B
  ELSE /\ e.k = "ok"
       /\ e.op = "weird_drain" =>
            /\ Len(e.p) + Len(e.q) = Len(A)
            /\ \E i \in 0..Len(e.p) : Patched(e.p, i, <<>>, A, Len(e.q)) /\ e.q = Slice(A, i, i + Len(e.q))
       /\ e.op = "weird_range" =>
            LET k == Len(A) + Len(e.w) - Len(e.p) IN
            k >= 0 /\ \E i \in 0..Len(A) : i + k <= Len(A) /\ Bd(A, i) /\ Bd(A, i + k) /\ Patched(e.p, i, e.w, A, k)

(* A panic in the caller's code: what may be left of text A *)
PanicLeaves(N, A, op, ys, p) ==
  CASE op = "retain" ->                             \* ys: the characters the predicate was called on
         LET cs == Chars(A)
             rest == Suffix(A, Len(Concat(ys)))
         IN /\ Len(ys) <= Len(cs)
            /\ \A i \in 1..Len(ys) : ys[i] = cs[i]
            /\ Len(p) >= Len(rest)
            /\ Suffix(p, Len(p) - Len(rest)) = rest
            /\ IsSubseq(Chars(Prefix(p, Len(p) - Len(rest))), ys)
    [] op \in ExtendIter ->
         /\ Len(p) <= N
         /\ Len(p) >= Len(A)
         /\ Prefix(p, Len(A)) = A
         /\ LET added == Suffix(p, Len(A))  all == Concat(ys) IN
            Len(added) <= Len(all) /\ Prefix(all, Len(added)) = added
    [] op \in WeirdOps -> WellFormed(p) /\ Len(p) <= N  \* a text or a range that panics when it is asked
    [] OTHER -> p = A                               \* constructors: nothing was built
=============================================================================
