----------------------------- MODULE DbMachine -----------------------------
(***************************************************************************)
(* The table as a state machine over a small domain: checks the laws the   *)
(* property promises on the model, and writes down every history of at     *)
(* most LEN writes for execution on the real library (OUT).                *)
(***************************************************************************)
EXTENDS Db, TLC, Json, IOUtils

SIZE == IOEnv.SIZE
OUTFILE == IOEnv.OUT
LEN == 2

a1 == <<97>>  b1 == <<98>>
e2 == <<195, 169>>  e3 == <<226, 130, 172>>  e4 == <<240, 159, 152, 128>>
nul == <<0>>  q == <<39>>
Texts == {<<>>, a1, e2, a1 \o e2, e4, a1 \o e3, nul \o q, e3 \o e2, e4 \o b1 \o e4}
         \cup (IF SIZE = "big" THEN {b1, a1 \o a1, e2 \o a1, nul, a1 \o nul \o a1, q \o q, e3 \o e4 \o e2, e2 \o e2 \o e2 \o e2 \o a1} ELSE {})
Caps == {1, 2, 3, 4, 8}
Rows == 1..2

Call(op, id, w, n, cmp, w2) == [op |-> op, id |-> id, w |-> w, n |-> n, cmp |-> cmp, w2 |-> w2, ws |-> <<>>]
Batch(n, ws) == [Call("batch", 1, <<>>, n, "eq", <<>>) EXCEPT !.ws = ws]
Calls ==
  {Call("put", id, Trunc(w, n), n, "eq", <<>>) : id \in Rows, w \in Texts, n \in Caps}
  \cup {Call("upd", id, Trunc(w, n), n, "eq", <<>>) : id \in Rows, w \in Texts, n \in {2, 8}}
  \cup {Call("raw", 1, w, 8, "eq", <<>>) : w \in Texts}
  \cup {Call("null", id, <<>>, 8, "eq", <<>>) : id \in Rows}
  \cup {Batch(n, <<Trunc(w, n), Trunc(x, n)>>) : n \in {3, 8}, w \in {<<>>, e4 \o b1 \o e4}, x \in {nul \o q, a1 \o e2}}
  \cup {Call("undo", id, a1 \o e2, 3, "eq", <<>>) : id \in Rows}
  \cup {Call("upd_where", 1, Trunc(w, 4), 4, cmp, a1) : w \in Texts, cmp \in {"eq", "lt", "ge"}}
  \cup {Call("del_where", 1, Trunc(w, 4), 4, cmp, <<>>) : w \in Texts, cmp \in {"eq", "gt"}}

VARIABLES rows, hist
vars == <<rows, hist>>
Init == rows = [i \in Rows |-> Absent] /\ hist = <<>>
Next == /\ Len(hist) < LEN
        /\ \E c \in Calls : /\ rows' = Do(rows, c)
                            /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_vars

(* Laws *)
Latest == hist[Len(hist)]
StoresExactly == hist # <<>> /\ Latest.op \in {"put", "raw"} => rows[Latest.id] = Has(Latest.w)
RoundTrip == hist # <<>> /\ Latest.op = "put" => Loaded(rows[Latest.id], Latest.n) = R("ok", Latest.w)
LoadFits == \A i \in Rows, n \in Caps : LET o == Loaded(rows[i], n) IN
              /\ WellFormed(o.v) /\ Len(o.v) <= n
              /\ (o.k = "ok") = IsText(rows[i])
              /\ IsText(rows[i]) => /\ Prefix(TextOf(rows[i]), Len(o.v)) = o.v
                                    /\ Len(TextOf(rows[i])) <= n => o.v = TextOf(rows[i])
NullIsNoText == \A i \in Rows, n \in Caps : rows[i] = Null => Loaded(rows[i], n).k = "err" /\ LoadedOpt(rows[i], n).k = "null"
FoundByItself == \A i \in Rows : IsText(rows[i]) => i \in Matching(rows, "eq", TextOf(rows[i]))
BatchIsPuts == hist # <<>> /\ Latest.op = "batch" => \A i \in 1..Len(Latest.ws) : rows[Latest.id + i - 1] = Has(Latest.ws[i])
OneExtreme == \A cmp \in {"le", "ge"} : Cardinality(Extremes(rows, cmp)) = IF \E i \in Rows : IsText(rows[i]) THEN 1 ELSE 0
Ordered == LET o == Answer(rows, Call("order", 1, <<>>, 8, "eq", <<>>)).v IN
           \A j \in 1..Len(o) - 1 : IsText(rows[o[j]]) => Rel("le", TextOf(rows[o[j]]), TextOf(rows[o[j + 1]]))
OnlyThere == [][\A i \in Rows : rows'[i] # rows[i] => LET c == hist'[Len(hist')] IN
                 \/ c.op \in {"put", "upd", "raw", "null", "del"} /\ c.id = i
                 \/ c.op = "batch" /\ c.id <= i /\ i < c.id + Len(c.ws)
                 \/ c.op \in {"upd_where", "del_where"} /\ i \in Matching(rows, c.cmp, c.w)]_vars
Laws == BatchIsPuts /\ OneExtreme /\ Ordered /\ StoresExactly /\ RoundTrip /\ LoadFits /\ NullIsNoText /\ FoundByItself

(* The histories, written once at the end *)
Histories == LET cs == SetToSeq(Calls)  k == Len(cs) IN
             [x \in 1..(k * k) |-> [h |-> <<cs[1 + ((x - 1) \div k)], cs[1 + ((x - 1) % k)]>>]]
Written == ndJsonSerialize(OUTFILE, Histories) /\ PrintT(<<"HISTORIES", Len(Histories), TLCGet("stats").distinct>>)
=============================================================================
