------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* Bounded domains: texts over a small alphabet with a character of every  *)
(* width, and for every property the calls that exercise it.  Used both to *)
(* model-check the reference semantics (Machine.tla) and to enumerate      *)
(* cases that are executed on the real library (Gen.tla).                  *)
(***************************************************************************)
EXTENDS ArrayString

a1 == <<97>>                    \* a
a2 == <<66>>                    \* B
sp == <<32>>                    \* space
e2 == <<195, 169>>              \* U+00E9
n2 == <<194, 160>>              \* U+00A0, white space
e3 == <<226, 130, 172>>         \* U+20AC
w3 == <<227, 128, 128>>         \* U+3000, white space
e4 == <<240, 159, 152, 128>>    \* U+1F600

(* Texts over alphabet al of at most k bytes *)
RECURSIVE Texts(_, _)
Texts(al, k) == {<<>>} \cup UNION {{c \o t : t \in Texts(al, k - Len(c))} : c \in {x \in al : Len(x) <= k}}

(* All sequences of 0/1 of length k *)
Bits(k) == [1..k -> {0, 1}]

Blank == [op |-> "noop", w |-> <<>>, ws |-> <<>>, ys |-> <<>>, u |-> <<>>, ix |-> 0, r |-> <<0, 0, 0, 0>>, bs |-> <<>>]
COp(ops) == {[Blank EXCEPT !.op = o] : o \in ops}
CW(ops, ws) == {[Blank EXCEPT !.op = o, !.w = w] : o \in ops, w \in ws}
CIx(ops, is) == {[Blank EXCEPT !.op = o, !.ix = i] : o \in ops, i \in is}
CIxW(ops, is, ws) == {[Blank EXCEPT !.op = o, !.ix = i, !.w = w] : o \in ops, i \in is, w \in ws}
CR(ops, rs) == {[Blank EXCEPT !.op = o, !.r = r] : o \in ops, r \in rs}
CRW(ops, rs, ws) == {[Blank EXCEPT !.op = o, !.r = r, !.w = w] : o \in ops, r \in rs, w \in ws}
CItems(ops, its) == {[Blank EXCEPT !.op = o, !.ws = it, !.ys = it] : o \in ops, it \in its}
CPieces(its) == {[Blank EXCEPT !.op = "write_fmt", !.ws = it] : it \in its}
CU(ops, us) == {[Blank EXCEPT !.op = o, !.u = u] : o \in ops, u \in us}

(* Positions of interest for a text of len bytes: all near ones, and far ones that
   would look near if they were cut to 8 bits *)
Near(N) == 0..(N + 2)
Far == {255, 256, 257, 258, 512, 65536, 2000000000}
(* Inclusive ranges (s..=s) that have been iterated to their end; as bounds they denote s..s *)
Exhausted(ps) == {<<1, s, 3, s>> : s \in ps}
Ranges(ps) == {<<0, 0, 0, 0>>}
              \cup {<<0, 0, ek, e>> : ek \in {1, 2}, e \in ps}
              \cup {<<sk, s, 0, 0>> : sk \in {1, 2}, s \in ps}
              \cup {<<sk, s, ek, e>> : sk \in {1, 2}, s \in ps, ek \in {1, 2}, e \in ps}
              \cup Exhausted(ps)
(* Ranges the index operators accept: bounds are 8-bit, the start is never excluded *)
IndexRanges(ps) == {<<0, 0, 0, 0>>}
              \cup {<<0, 0, ek, e>> : ek \in {1, 2}, e \in ps}
              \cup {<<1, s, 0, 0>> : s \in ps}
              \cup {<<1, s, ek, e>> : s \in ps, ek \in {1, 2}, e \in ps}
              \cup Exhausted(ps)

(* Sequences of at most k elements of S *)
Seqs(S, k) == UNION {[1..j -> S] : j \in 0..k}

CharBuild == {"try_from_chars"}
CharTrunc == {"from_chars_truncate", "collect_chars", "extend_chars", "extend_char_refs"}
StrTrunc == {"from_iterator_truncate", "collect_strs", "extend_strs"}

(* The calls that exercise property P on an object with text A of capacity N.
   W: argument texts; ch: argument characters; k: length of item lists *)
CallsOf(P, N, A, W, ch, k) ==
  CASE P = "C03" ->
         CW({"try_from_str", "parse", "try_push_str", "write_str"}, W)
         \cup CW({"try_push", "write_char"}, ch)
         \cup CItems({"try_from_iterator"}, Seqs(Texts(ch, 2), k)) \cup CItems(CharBuild, Seqs(ch, k + 1))
         \cup CPieces(Seqs(Texts(ch, 2), 3))
    [] P = "C04" ->
         CW({"from_str_truncate", "from_ref", "push_str_truncate", "add"}, W)
         \cup CIxW({"insert_str_truncate"}, Near(N) \cup Far, W)
         \cup CItems(StrTrunc, Seqs(Texts(ch, 2), k)) \cup CItems(CharTrunc, Seqs(ch, k + 1))
    [] P = "C05" ->
         CIxW({"try_insert_str", "insert_str_truncate"}, Near(N) \cup Far, W)
         \cup CIxW({"try_insert"}, Near(N) \cup Far, ch)
         \cup CIx({"remove", "truncate", "split_off"}, Near(N) \cup Far)
         \cup CRW({"replace_range"}, Ranges(Near(N)), W) \cup CR({"drain"}, Ranges(Near(N)))
         \cup CRW({"replace_range"}, Ranges({0, 1, 255, 256, 257, 2000000000}), {<<>>, a1})
         \cup CR({"drain"}, Ranges({0, 1, 255, 256, 257, 2000000000}))
    [] P = "C06" ->
         CR({"drain"}, Ranges(Near(N)))
         \cup COp({"d_next", "d_next_back", "d_count", "d_last", "d_collect", "d_fold", "d_for", "d_rev", "d_rfold",
                   "d_drop", "d_default", "d_copy", "d_clone", "d_cmp", "d_hash", "d_size_hint"})
         \cup CIx({"d_nth", "d_nth_back"}, Near(N) \cup Far)
         \cup COp({"d_max", "d_min", "d_into", "d_extend"}) \cup CIx({"d_find", "d_rfind", "d_position", "d_any", "d_all"}, 0..Min2(N, 4))
    [] P = "C07" ->
         COp({"pop", "trim", "clear"}) \cup {[Blank EXCEPT !.op = "retain", !.bs = b] : b \in Bits(Len(Chars(A)))}
    [] P = "C08" ->
         CU({"try_from_utf16", "from_utf16_truncate", "from_utf16_lossy"}, Seqs({97, 233, 8364, 55357, 56832}, k + 1))
    [] P = "C09" ->
         COp({"cmp", "hash", "max", "min"}) \cup CW({"eq_str"}, W)
    [] P = "C11" ->
         COp({"upper_as_mut_str", "upper_deref_mut", "upper_as_mut", "upper_borrow_mut",
              "lower_as_mut_str", "lower_deref_mut", "lower_as_mut", "lower_borrow_mut"})
         \cup CR({"index", "index_mut_upper", "index_mut_lower"}, IndexRanges(Near(N) \cup {254, 255}))
    [] P = "C12" -> COp({"copy", "clone", "clone_from", "swap", "d_copy", "d_clone"})
    [] P = "C13" ->
         COp({"ser", "de_other"}) \cup CW({"de"}, W)
    [] P = "C16" -> COp({"from_array"})
    [] P = "C18" ->
         CItems({"try_from_iterator"} \cup StrTrunc, Seqs(Texts(ch, 2), k)) \cup CItems(CharBuild \cup CharTrunc, Seqs(ch, k + 1))
    [] P = "C19" ->
         {[Blank EXCEPT !.op = "retain", !.bs = b] : b \in Bits(Len(Chars(A)))}
         \cup CItems({"extend_strs"}, Seqs(Texts(ch, 1), k)) \cup CItems({"extend_chars"}, Seqs(ch, k))
    [] P = "C21" ->
         COp({"display", "debug"}) \cup CIx({"display_sink"}, Near(N))
         \cup CR({"display_spec"}, {<<x, w, 0, 0>> : x \in 0..2, w \in {0, 1, N, N + 3}} \cup {<<x, w, 1, y>> : x \in 0..2, w \in {0, N + 1}, y \in 0..2}) \cup CW({"write_str"}, W) \cup CW({"write_char"}, ch)
         \cup CPieces(Seqs(Texts(ch, 2), 3))
    [] OTHER -> {}

Families == {"C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C21"}
(* A sample of everything, for the properties that concern every operation *)
AllCalls(N, A, W, ch, k) == UNION {CallsOf(P, N, A, W, ch, k) : P \in Families}

OnDrain(op) == op \in {"d_next", "d_next_back", "d_nth", "d_nth_back", "d_count", "d_last", "d_collect", "d_fold", "d_for",
                       "d_rev", "d_rfold", "d_drop", "d_default", "d_copy", "d_clone", "d_cmp", "d_hash", "d_size_hint",
                       "d_find", "d_rfind", "d_position", "d_any", "d_all", "d_max", "d_min", "d_into", "d_extend"}
SecondString(op) == op \in {"split_off", "copy", "clone", "clone_from", "swap", "cmp", "hash", "max", "min", "d_into", "d_extend"}
SecondDrain(op) == op \in {"drain", "d_copy", "d_clone", "d_cmp", "d_hash"}
=============================================================================
