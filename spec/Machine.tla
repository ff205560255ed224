------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The system: strings and a draining iterator of one capacity, changed by *)
(* the calls of the library as the reference semantics allows.  TLC        *)
(* explores every reachable state for small constants and evaluates in     *)
(* each of them the law of the selected property (environment variable     *)
(* PROP).  The laws are stated independently of the definitions in         *)
(* ArrayString.tla: by characters instead of bytes, by quantification      *)
(* instead of construction, or as equations between different operations.  *)
(***************************************************************************)
EXTENDS Calls, TLC, IOUtils

P == IOEnv.PROP
SIZE == IOEnv.SIZE

Alpha == IF SIZE = "big" THEN {a1, e2, e3, e4} ELSE {a1, e2, e3}
Caps == IF SIZE = "big" THEN 1..4 ELSE 1..3
ArgAlpha == {a1, sp, e2} \cup (IF SIZE = "big" THEN {e4} ELSE {})

VARIABLES n, s, d, last
vars == <<n, s, d, last>>

Ws(N) == Texts(ArgAlpha, N + 1)
K == IF SIZE = "big" THEN 2 ELSE 1

(* The calls by which the machine moves: enough to reach every state *)
MoveCalls(A) ==
  CW({"from_str_truncate"}, Texts(Alpha, n)) \cup CW({"try_push_str", "push_str_truncate"}, Alpha)
  \cup CIxW({"try_insert_str"}, 0..(n+1), Alpha) \cup CRW({"replace_range"}, Ranges(0..n), {<<>>, e2})
  \cup CIx({"remove", "truncate", "split_off"}, 0..n) \cup CR({"drain"}, Ranges(0..n))
  \cup COp({"pop", "trim", "clear", "swap", "copy"})

Init == /\ n \in Caps /\ s = [i \in 1..2 |-> <<>>] /\ d = <<>> /\ last = "none"

OnString == \E c \in MoveCalls(s[1]) :
  IF SecondString(c.op)
  THEN \E o \in Outcomes(n, s[1], s[2], c) : s' = <<o.p, o.q>> /\ d' = d /\ last' = o.k
  ELSE IF SecondDrain(c.op)
  THEN \E o \in Outcomes(n, s[1], d, c) : s' = <<o.p, s[2]>> /\ d' = o.q /\ last' = o.k
  ELSE \E o \in Outcomes(n, s[1], <<>>, c) : s' = <<o.p, s[2]>> /\ d' = d /\ last' = o.k
OnIter == \E c \in COp({"d_next", "d_next_back", "d_drop"}) \cup CIx({"d_nth"}, 0..1) :
  \E o \in Outcomes(n, d, <<>>, c) : d' = o.p /\ s' = s /\ last' = o.k
Next == n' = n /\ (OnString \/ OnIter)
Spec == Init /\ [][Next]_vars
(* the kind of the last reply is only there for the action properties *)
View == <<n, s, d>>

-----------------------------------------------------------------------------
(* Invariant and action properties of the machine as a whole *)
TypeOK == /\ \A i \in 1..2 : WellFormed(s[i]) /\ Len(s[i]) <= n
          /\ WellFormed(d) /\ Len(d) <= n
FailAtomic == [][last' \in ErrorKinds => UNCHANGED <<s, d>>]_vars
(* no call changes the capacity, and at most two objects *)
Frame == [][n' = n /\ (s'[1] = s[1] \/ s'[2] = s[2] \/ d' = d)]_vars

-----------------------------------------------------------------------------
A == s[1]
B == s[2]
Outs(c) == Outcomes(n, A, B, c)
CharOffsets(t) == {Len(Concat(SubSeq(Chars(t), 1, k))) : k \in 0..Len(Chars(t))}
(* x is the longest prefix of w made of whole characters with at most room bytes *)
LongestFit(x, w, room) ==
  /\ Len(x) <= room
  /\ \E k \in 0..Len(Chars(w)) : x = Concat(SubSeq(Chars(w), 1, k))
  /\ \A k \in 0..Len(Chars(w)) : LET y == Concat(SubSeq(Chars(w), 1, k)) IN Len(y) <= room => Len(y) <= Len(x)
(* Laws about every operation: the second object matters only as something to be left alone *)
Roomy == d # <<>> \/ Len(B) > 2 \/ B = A
Sample(F) == CallsOf(F, n, A, Texts(ArgAlpha, IF F = "C05" THEN n ELSE n + 1), ArgAlpha, K)
ForEverything(Test(_)) == Roomy \/ \A F \in Families : \A c \in Sample(F) : Test(c)
Mine(p) == CallsOf(p, n, A, Ws(n), ArgAlpha, K)
One(c) == CHOOSE o \in Outs(c) : TRUE
Only(c, o) == Outs(c) = {o}

LawC01 == ForEverything(LAMBDA c : \A o \in Outs(c) :
            /\ WellFormed(o.p) /\ Len(o.p) <= n
            /\ (o.k # "err" => WellFormed(o.q) /\ Len(o.q) <= n))
LawC02 == ForEverything(LAMBDA c : \A o \in Outs(c) :
            (o.k \in ErrorKinds /\ c.op # "write_fmt") => (o.p = A /\ o.q = B))
(* success exactly when it fits, and then the concatenation *)
LawC03 == \A c \in Mine("C03") \ CPieces(Seqs(Texts(ArgAlpha, 2), 3)) :
            LET base == IF c.op \in {"try_push", "try_push_str", "write_str", "write_char"} THEN A ELSE <<>>
                all == base \o (IF c.op \in IterOps THEN Concat(c.ws) ELSE c.w)
                bad == IF c.op \in {"write_str", "write_char"} THEN "fmt" ELSE "oob"
            IN IF Len(all) <= n THEN Only(c, Out(all, B, "ok", <<>>)) ELSE Only(c, Out(A, B, bad, <<>>))
LawC04 == \A c \in Mine("C04") :
            IF c.op = "insert_str_truncate"
            THEN \A o \in Outs(c) : o.k = "ok" =>
                   /\ c.ix \in CharOffsets(A)
                   /\ LET x == Slice(o.p, c.ix, c.ix + Len(o.p) - Len(A)) IN
                      /\ LongestFit(x, c.w, n - Len(A))
                      /\ o.p = Prefix(A, c.ix) \o x \o Suffix(A, c.ix)
            ELSE LET keeps == c.op \in {"push_str_truncate", "add"} \cup ExtendIter
                     base == IF keeps THEN A ELSE <<>>
                     all == IF c.op \in IterOps THEN Concat(c.ws) ELSE c.w
                 IN /\ Cardinality(Outs(c)) = 1
                    /\ One(c).k = "ok"
                    /\ Prefix(One(c).p, Len(base)) = base
                    /\ LongestFit(Suffix(One(c).p, Len(base)), all, n - Len(base))
LawC05 ==
  /\ \A c \in Mine("C05") : \A o \in Outs(c) :
       LET rg == c.op \in {"replace_range", "drain"}
           st == IF rg THEN RangeStart(c.r) ELSE c.ix
           en == IF rg THEN RangeEnd(c.r, Len(A)) ELSE c.ix
           valid == st <= en /\ st \in CharOffsets(A) /\ en \in CharOffsets(A)
       IN CASE c.op = "truncate" -> (o.k = "ok") = (c.ix > Len(A) \/ c.ix \in CharOffsets(A))
            [] c.op = "remove" -> (o.k = "ok") = (c.ix < Len(A) /\ c.ix \in CharOffsets(A))
            [] c.op \in {"split_off", "drain", "insert_str_truncate"} -> (o.k = "ok") = valid
            [] OTHER -> (o.k = "ok") = (valid /\ Len(A) - (en - st) + Len(c.w) <= n)
  (* what an insertion puts in, removing that range takes out *)
  /\ \A i \in CharOffsets(A) : \A w \in Ws(n) : Len(A) + Len(w) <= n =>
       LET x == Outcomes(n, A, B, [Blank EXCEPT !.op = "try_insert_str", !.ix = i, !.w = w])
           y == (CHOOSE o \in x : TRUE).p
       IN Outcomes(n, y, B, [Blank EXCEPT !.op = "replace_range", !.r = <<1, i, 2, i + Len(w)>>]) = Ok(A, B)
  (* replacing is draining, then inserting *)
  /\ \A c \in CRW({"replace_range"}, Ranges(0..n), Ws(n)) : \A o \in Outs(c) : o.k = "ok" =>
       LET dr == One([Blank EXCEPT !.op = "drain", !.r = c.r]) IN
       /\ dr.k = "ok"
       /\ Outcomes(n, dr.p, B, [Blank EXCEPT !.op = "try_insert_str", !.ix = RangeStart(c.r), !.w = c.w]) = {o}
  (* splitting off keeps the front and returns the back; what is drained was there *)
  /\ \A i \in CharOffsets(A) : LET o == One([Blank EXCEPT !.op = "split_off", !.ix = i]) IN o.p \o o.q = A /\ Len(o.p) = i
  (* errors: inside a character is utf8, outside is out of bounds, and both only when both apply *)
  /\ \A i \in Near(n) : \A o \in Outs([Blank EXCEPT !.op = "split_off", !.ix = i]) :
       /\ (o.k = "utf8") = (i < Len(A) /\ i \notin CharOffsets(A))
       /\ (o.k = "oob") = (i > Len(A))
RECURSIVE Yields(_, _)
(* all pairs of <<what came from the front, what came from the back>> by k steps on t *)
Yields(t, k) ==
  IF k = 0 THEN {<<<<>>, <<>>, t>>}
  ELSE UNION {LET f == CHOOSE o \in Outcomes(n, y[3], <<>>, [Blank EXCEPT !.op = "d_next"]) : TRUE
                  b == CHOOSE o \in Outcomes(n, y[3], <<>>, [Blank EXCEPT !.op = "d_next_back"]) : TRUE
              IN {<<y[1] \o f.v, y[2], f.p>>, <<y[1], b.v \o y[2], b.p>>} : y \in Yields(t, k - 1)}
LawC06 ==
  /\ \A k \in 0..(Len(Chars(d)) + 1) : \A y \in Yields(d, k) :
       /\ y[1] \o y[3] \o y[2] = d
       /\ (k >= Len(Chars(d)) => y[3] = <<>>)
  /\ \A k \in 0..(Len(Chars(d)) + 1) :             \* skipping is stepping
       LET c == [Blank EXCEPT !.op = "d_nth", !.ix = k]
           o == CHOOSE o \in Outcomes(n, d, <<>>, c) : TRUE
       IN \E y \in Yields(d, k + 1) : y[2] = <<>> /\ o.p = y[3] /\ (o.k = "some") = (k < Len(Chars(d)))
  /\ \A c \in CR({"drain"}, Ranges(0..(n+1))) : \A o \in Outcomes(n, A, d, c) : o.k = "ok" =>
       LET st == RangeStart(c.r) IN Prefix(o.p, st) \o o.q \o Suffix(o.p, st) = A
LawC07 ==
  /\ LET o == One([Blank EXCEPT !.op = "pop"]) IN
     /\ o.p \o o.v = A
     /\ IF A = <<>> THEN o.k = "none" ELSE Len(Chars(o.v)) = 1
  /\ LET t == One([Blank EXCEPT !.op = "trim"]).p  cs == Chars(t) IN
     /\ cs # <<>> => (~IsWs(cs[1]) /\ ~IsWs(cs[Len(cs)]))
     /\ \E i \in CharOffsets(A) : /\ Slice(A, i, i + Len(t)) = t
                                  /\ \A x \in ToSet(Chars(Prefix(A, i))) \cup ToSet(Chars(Suffix(A, i + Len(t)))) : IsWs(x)
     /\ Outcomes(n, t, B, [Blank EXCEPT !.op = "trim"]) = Ok(t, B)
  /\ Only([Blank EXCEPT !.op = "retain", !.bs = [i \in 1..Len(Chars(A)) |-> 1]], Out(A, B, "ok", <<>>))
  /\ Only([Blank EXCEPT !.op = "retain", !.bs = [i \in 1..Len(Chars(A)) |-> 0]], Out(<<>>, B, "ok", <<>>))
  /\ \A b \in Bits(Len(Chars(A))) : LET o == One([Blank EXCEPT !.op = "retain", !.bs = b]) IN
       /\ IsSubseq(Chars(o.p), Chars(A))
       /\ Len(Chars(o.p)) = Cardinality({i \in 1..Len(b) : b[i] = 1})
Utf16Of(t) == Concat([i \in 1..Len(Chars(t)) |-> EncodeUtf16(CodePoint(Chars(t)[i]))])
LawC08 ==
  (* decoding inverts encoding, for every text, however long *)
  /\ \A w \in Texts(Alpha, n + 2) :
       LET u == Utf16Of(w) IN
       /\ Outs([Blank EXCEPT !.op = "try_from_utf16", !.u = u]) = BuildAll(n, A, B, w)
       /\ \A op \in {"from_utf16_truncate", "from_utf16_lossy"} :
            /\ Cardinality(Outs([Blank EXCEPT !.op = op, !.u = u])) = 1
            /\ LongestFit(One([Blank EXCEPT !.op = op, !.u = u]).p, w, n)
  (* an unpaired surrogate is an error, or a replacement character *)
  /\ \A u \in Seqs({97, 8364, 55357, 56832}, 3) :
       LET high(i) == u[i] = 55357   low(i) == u[i] = 56832
           lone == {i \in 1..Len(u) : (high(i) /\ ~(i < Len(u) /\ low(i+1))) \/ (low(i) /\ ~(i > 1 /\ high(i-1)))}
           fixed == Concat([i \in 1..Len(u) |-> IF i \in lone THEN <<65533>> ELSE <<u[i]>>])
       IN /\ lone # {} => \A o \in Outs([Blank EXCEPT !.op = "try_from_utf16", !.u = u]) : o.k \in {"utf16", "oob"}
          /\ lone # {} => \E o \in Outs([Blank EXCEPT !.op = "from_utf16_truncate", !.u = u]) : o.k = "utf16"
          /\ Outs([Blank EXCEPT !.op = "from_utf16_lossy", !.u = u])
             = Outs([Blank EXCEPT !.op = "from_utf16_truncate", !.u = fixed])
Points(t) == [i \in 1..Len(Chars(t)) |-> CodePoint(Chars(t)[i])]
LexLess(x, y) == \E k \in 0..Min2(Len(x), Len(y)) :
                   /\ SubSeq(x, 1, k) = SubSeq(y, 1, k)
                   /\ \/ k = Len(x) /\ k < Len(y)
                      \/ k < Len(x) /\ k < Len(y) /\ x[k+1] < y[k+1]
LawC09 ==
  /\ Cmp(A, B) = 2 - Cmp(B, A)
  /\ (Cmp(A, B) = 1) = (A = B)
  /\ (Cmp(A, B) = 0) = LexLess(Points(A), Points(B))      \* order of bytes = order of code points
  /\ \A t \in Texts(Alpha, n) : (Cmp(A, B) = 0 /\ Cmp(B, t) = 0) => Cmp(A, t) = 0
  /\ LET mx == One([Blank EXCEPT !.op = "max"]).v  mn == One([Blank EXCEPT !.op = "min"]).v IN
     /\ {mx, mn} = {A, B} /\ Cmp(mn, mx) <= 1
     /\ One([Blank EXCEPT !.op = "max"]).p = A /\ One([Blank EXCEPT !.op = "max"]).q = B
(* every call has an outcome, and only indexing panics *)
LawC10 == ForEverything(LAMBDA c :
            /\ Outs(c) # {}
            /\ \A o \in Outs(c) : o.k \in {"ok", "some", "none", "fmt", "oob", "utf8", "utf16", "panic"}
            /\ \A o \in Outs(c) : o.k = "panic" => c.op \in {"index", "index_mut_upper", "index_mut_lower"})
LawC11 == \A c \in CR({"index", "index_mut_upper", "index_mut_lower"}, IndexRanges(0..(n+1))) :
            LET st == RangeStart(c.r)  en == RangeEnd(c.r, Len(A))
                valid == st <= en /\ st \in CharOffsets(A) /\ en \in CharOffsets(A)
            IN \A o \in Outs(c) :
                 IF c.r[3] = 3 THEN o.p = A /\ o.v = <<>> /\ (en + 1 <= Len(A) /\ A[en + 1] < 128 => o.k = "ok")
                 ELSE IF ~valid THEN o.k = "panic" /\ o.p = A
                 ELSE /\ o.k = "ok" /\ Len(o.p) = Len(A)
                      /\ \A i \in 1..Len(A) : (i <= st \/ i > en) => o.p[i] = A[i]
                      /\ o.v = SubSeq(A, st + 1, en)
LawC12 == ForEverything(LAMBDA c : \A o \in Outs(c) :
            /\ (~SecondString(c.op) /\ ~SecondDrain(c.op)) => o.q = B
            /\ c.op \in {"cmp", "hash", "max", "min", "copy", "clone", "clone_from"} => o.p = A
            /\ c.op \in {"copy", "clone", "clone_from"} => o.q = A)
LawC13 ==
  LET o == One([Blank EXCEPT !.op = "ser"]) IN
  /\ o.k = "str" /\ o.p = A
  /\ Outcomes(n, B, B, [Blank EXCEPT !.op = "de", !.w = o.v]) = Ok(A, B)
  /\ \A w \in Ws(n) : LongestFit(One([Blank EXCEPT !.op = "de", !.w = w]).p, w, n)
  /\ Outs([Blank EXCEPT !.op = "de", !.w = <<195>>]) = Fail(A, B, {"err"})
(* replies and texts are determined, up to the kind of an error and a text already overflown:
   what makes comparing two runs of the same history meaningful *)
LawDetermined == ForEverything(LAMBDA c : \A x, y \in Outs(c) :
            \/ x.p = y.p /\ x.q = y.q /\ x.v = y.v /\ (x.k = y.k \/ {x.k, y.k} \subseteq ErrorKinds)
            \/ c.op \in {"index", "index_mut_upper", "index_mut_lower"} /\ c.r[3] = 3 /\ x.p = y.p /\ x.q = y.q /\ x.v = y.v
            \/ c.op = "from_utf16_truncate")
(* stopping at the first item that does not fit, or anywhere later, gives the same text *)
LawC18 == \A c \in Mine("C18") : \A j \in 0..Len(c.ws) :
            LET ys == SubSeq(c.ws, 1, j) IN
            (PullOK(n, A, c.op, ys, BoolV(j = Len(c.ws)), "ok") \/ PullOK(n, A, c.op, ys, 0, "oob"))
            => /\ \E o \in Outs([c EXCEPT !.ys = ys]) :
                    (o.k = "ok" => PullOK(n, A, c.op, ys, BoolV(j = Len(c.ws)), "ok"))
               /\ (c.op \notin FallibleIter => Outs([c EXCEPT !.ys = ys]) = Outs(c))
(* what a caller panic may leave contains everything untouched before it, and the whole operation's result *)
LawC19 ==
  /\ PanicLeaves(n, A, "retain", Chars(A), A)
  /\ \A b \in Bits(Len(Chars(A))) :
       PanicLeaves(n, A, "retain", Chars(A), One([Blank EXCEPT !.op = "retain", !.bs = b]).p)
  /\ \A k \in 0..Len(Chars(A)) : \A t \in Texts(Alpha, n) :
       PanicLeaves(n, A, "retain", SubSeq(Chars(A), 1, k), t) =>
         /\ Len(t) <= Len(A)
         /\ IsSubseq(Chars(t), Chars(A))
         /\ LET tail == Suffix(A, Len(Concat(SubSeq(Chars(A), 1, k)))) IN Suffix(t, Len(t) - Len(tail)) = tail
  /\ \A w \in Ws(n) : PanicLeaves(n, A, "extend_chars", Chars(w), One([Blank EXCEPT !.op = "push_str_truncate", !.w = w]).p)
LawC21 ==
  /\ Only([Blank EXCEPT !.op = "display"], Out(A, B, "ok", A))
  /\ \A c \in CPieces(Seqs(Texts(ArgAlpha, 2), 3)) :
       LET o == One(c)
           fits(j) == Len(A) + Len(Concat(SubSeq(c.ws, 1, j))) <= n
           \* pieces kept: all before the first that does not fit
           j == CHOOSE x \in 0..Len(c.ws) : (\A y \in 1..x : fits(y)) /\ (x < Len(c.ws) => ~fits(x + 1))
       IN /\ Cardinality(Outs(c)) = 1
          /\ o.p = A \o Concat(SubSeq(c.ws, 1, j))
          /\ (o.k = "ok") = (j = Len(c.ws))
LawFit == \A w \in Ws(n + 3) : \A room \in 0..(n + 4) : Fit(w, room) = FitDef(w, room)

Law == CASE P = "C01" -> LawC01 [] P = "C02" -> LawC02 [] P = "C10" -> LawC10 [] P = "C12" -> LawC12
         [] P = "C06" -> LawC06 [] P = "C09" -> LawC09
         [] P \in {"C16", "C17"} -> LawDetermined
         (* the other laws do not depend on bystanders *)
         [] Roomy -> TRUE
         [] P = "C03" -> LawC03 [] P = "C04" -> LawC04 /\ (A = <<>> => LawFit)
         [] P = "C05" -> LawC05 [] P = "C07" -> LawC07
         [] P = "C08" -> LawC08 [] P = "C11" -> LawC11
         [] P = "C13" -> LawC13 [] P = "C18" -> LawC18
         [] P = "C19" -> LawC19 [] P = "C21" -> LawC21 [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* The definitions of text themselves, against Unicode's own: every byte string over critical bytes is
   well-formed exactly if it is the encoding of scalar values; encoding and decoding are inverse *)
Critical == {0, 97, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 237, 239, 240, 244, 245, 255}
ScalarEdges == {0, 97, 127, 128, 2047, 2048, 4095, 4096, 53247, 53248, 55295, 57344, 65535, 65536, 262143, 262144, 1048575, 1048576, 1114111}
RECURSIVE Parse(_)
(* greedy parse into scalars, by arithmetic: does t encode a sequence of scalars in shortest form? *)
Parse(t) == \/ t = <<>>
            \/ \E k \in 1..Min2(4, Len(t)) :
                 LET ch == Prefix(t, k)  c == CodePoint(ch) IN
                 /\ IsScalar(c) /\ Encode(c) = ch
                 /\ Parse(Suffix(t, k))
ASSUME P # "C01" \/ \A t \in Seqs(Critical, IF SIZE = "big" THEN 4 ELSE 3) : WellFormed(t) = Parse(t)
ASSUME \A c \in ScalarEdges : CodePoint(Encode(c)) = c /\ WellFormed(Encode(c)) /\ Len(Chars(Encode(c))) = 1
ASSUME \A c \in ScalarEdges : DecodeUtf16(EncodeUtf16(c)) = <<Encode(c)>>
=============================================================================
