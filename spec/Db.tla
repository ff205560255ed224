--------------------------------- MODULE Db ---------------------------------
(***************************************************************************)
(* A table of texts written and read through the Diesel integration.       *)
(*                                                                         *)
(* State: rows, a function from row numbers to contents: Absent, Null, or  *)
(* <<1, text>>.  Calls are records with op and                             *)
(*   id row   w text of the value used   n capacity of the value written   *)
(*   or of the type loaded   cmp comparison   w2 replacement, upper bound, *)
(*   second value   ws list                                                *)
(* Do(rows, c) is the table after call c, Answer(rows, c) what c returns:  *)
(* [k, v] with v a text, a list of rows, or a count.                       *)
(***************************************************************************)
EXTENDS Utf

Absent == <<>>
Null == <<0>>
Has(t) == <<1, t>>
IsText(x) == Len(x) = 2
TextOf(x) == x[2]

Writes == {"put", "batch", "raw", "null", "upd", "upd_where", "del", "del_where"}

(* How a comparison in a query sees two texts *)
Rel(cmp, a, b) == LET c == Cmp(a, b) IN
  CASE cmp = "eq" -> c = 1 [] cmp = "ne" -> c # 1
    [] cmp = "lt" -> c = 0 [] cmp = "le" -> c <= 1
    [] cmp = "gt" -> c = 2 [] cmp = "ge" -> c >= 1

Ids(rows) == DOMAIN rows
Matching(rows, cmp, w) == {i \in Ids(rows) : IsText(rows[i]) /\ Rel(cmp, TextOf(rows[i]), w)}
Between(rows, lo, hi) == Matching(rows, "ge", lo) \cap Matching(rows, "le", hi)
Among(rows, ws) == {i \in Ids(rows) : IsText(rows[i]) /\ \E j \in 1..Len(ws) : ws[j] = TextOf(rows[i])}
Present(rows) == {i \in Ids(rows) : rows[i] # Absent}

Do(rows, c) ==
  CASE c.op \in {"put", "raw"} -> [rows EXCEPT ![c.id] = Has(c.w)]
    [] c.op = "batch" -> [i \in Ids(rows) |-> IF c.id <= i /\ i < c.id + Len(c.ws) THEN Has(c.ws[i - c.id + 1]) ELSE rows[i]]
    [] c.op = "null" -> [rows EXCEPT ![c.id] = Null]
    [] c.op = "upd" -> IF rows[c.id] = Absent THEN rows ELSE [rows EXCEPT ![c.id] = Has(c.w)]
    [] c.op = "upd_where" -> LET m == Matching(rows, c.cmp, c.w) IN
                             [i \in Ids(rows) |-> IF i \in m THEN Has(c.w2) ELSE rows[i]]
    [] c.op = "del" -> [rows EXCEPT ![c.id] = Absent]
    [] c.op = "del_where" -> LET m == Matching(rows, c.cmp, c.w) IN
                             [i \in Ids(rows) |-> IF i \in m THEN Absent ELSE rows[i]]
    [] OTHER -> rows          \* "undo" too: a write of a transaction that is rolled back

R(k, v) == [k |-> k, v |-> v]
Sorted(S) == SetToSortSeq(S, <)
(* NULL first, then by text, then by row number *)
Before(rows, i, j) ==
  LET x == rows[i]  y == rows[j] IN
  IF x = Null \/ y = Null THEN (x = Null /\ y # Null) \/ (x = y /\ i < j)
  ELSE LET c == Cmp(TextOf(x), TextOf(y)) IN c = 0 \/ (c = 1 /\ i < j)

(* The contents of the rows with the greatest or the smallest text *)
Extremes(rows, cmp) == {rows[i] : i \in {j \in Ids(rows) : IsText(rows[j]) /\ \A k \in Ids(rows) : IsText(rows[k]) => Rel(cmp, TextOf(rows[j]), TextOf(rows[k]))}}

(* What a value of capacity n loaded from content x is *)
Loaded(x, n) == CASE x = Absent -> R("none", <<>>)
                  [] x = Null -> R("err", <<>>)
                  [] OTHER -> R("ok", Trunc(TextOf(x), n))
LoadedOpt(x, n) == IF x = Null THEN R("null", <<>>) ELSE Loaded(x, n)

Answer(rows, c) ==
  CASE c.op \in {"put", "raw", "null"} -> R("ok", <<1>>)
    [] c.op \in {"upd", "del"} -> R("ok", <<IF rows[c.id] = Absent THEN 0 ELSE 1>>)
    [] c.op \in {"upd_where", "del_where"} -> R("ok", <<Cardinality(Matching(rows, c.cmp, c.w))>>)
    [] c.op \in {"load", "load_sql"} -> Loaded(rows[c.id], c.n)
    [] c.op = "load_opt" -> LoadedOpt(rows[c.id], c.n)
    [] c.op = "bytes" -> IF rows[c.id] = Absent THEN R("none", <<>>)      \* stored bytes and storage class
                         ELSE IF rows[c.id] = Null THEN R("null", <<>>)
                         ELSE R("text", TextOf(rows[c.id]))
    [] c.op = "all" -> LET is == Sorted(Present(rows)) IN
                       R("ok", [j \in 1..Len(is) |-> <<is[j], LoadedOpt(rows[is[j]], c.n)>>])
    [] c.op = "where" -> R("ok", Sorted(Matching(rows, c.cmp, c.w)))
    [] c.op = "where_in" -> R("ok", Sorted(Among(rows, c.ws)))
    [] c.op = "where_out" -> R("ok", Sorted(IF c.ws = <<>> THEN Present(rows)              \* in no list at all: even NULL
                                            ELSE {i \in Present(rows) : IsText(rows[i])} \ Among(rows, c.ws)))
    [] c.op = "between" -> R("ok", Sorted(Between(rows, c.w, c.w2)))
    [] c.op = "extreme" -> LET m == Extremes(rows, c.cmp) IN                               \* cmp: "ge" the greatest, "le" the smallest
                           IF m = {} THEN R("null", <<>>) ELSE LoadedOpt(CHOOSE x \in m : TRUE, c.n)
    [] c.op = "batch" -> R("ok", <<Len(c.ws)>>)
    [] c.op = "undo" -> R("err", <<>>)
    [] c.op = "concat" -> R("ok", Trunc(c.w \o c.w2, c.n))
    [] c.op = "pair" -> R("ok", <<Trunc(c.w, c.n), Trunc(c.w2, c.n)>>)
    [] c.op = "order" -> R("ok", SetToSortSeq(Present(rows), LAMBDA i, j : Before(rows, i, j)))
    [] c.op \in {"echo", "echo_str"} -> R("ok", Trunc(c.w, c.n))                           \* bound in a query, loaded at capacity n

Same(c, o) ==
  IF c.op = "all" THEN /\ c.k = o.k
                       /\ Len(c.v) = Len(o.v)
                       /\ \A j \in 1..Len(c.v) : /\ c.v[j][1] = o.v[j][1]
                                                 /\ c.v[j][2] = (IF o.v[j][2].k = "null" THEN 0 ELSE 1)
                                                 /\ c.v[j][3] = o.v[j][2].v
  ELSE c.k = o.k /\ c.v = o.v
Conforms(rows, c) == Same(c, Answer(rows, c))
=============================================================================
