------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Trace validation.  A trace recorded from the real library (one JSON     *)
(* record per public call, written at its return, with the complete        *)
(* observed abstract state of the objects involved) is replayed as a       *)
(* behaviour: every step adopts the observed state, and the property       *)
(* selected by the environment variable PROP is evaluated on the step      *)
(* <<state before, call, reply, state after>> against the reference        *)
(* semantics of module ArrayString.  Offending lines are printed; the      *)
(* postcondition requires that every line was consumed.                    *)
(***************************************************************************)
EXTENDS ArrayString, TLC, Json, IOUtils

P == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,    \* next line
          n,    \* capacity
          s,    \* texts of the strings
          d,    \* what the draining iterators still have to yield
          m,    \* the maps keyed by strings: set of [k, v]
          sane, \* no damaged text observed in this history so far
          pan   \* a caller panic happened earlier in this history
vars == <<l, n, s, d, m, sane, pan>>

NS == 3
ND == 2

Obj(t, i) == IF i = 0 THEN <<>> ELSE IF t = "s" THEN s[i] ELSE d[i]

-----------------------------------------------------------------------------
(* Pieces of the judgement on one event e *)

A(e) == Obj(e.t, e.i)
B(e) == Obj(e.t2, e.j)

Conf(e) == \E o \in Outcomes(n, A(e), B(e), e) :
              o.p = e.p /\ o.q = e.q /\ o.k = e.k /\ o.v = e.v

CallsOK(e) == e.op = "retain" /\ e.k # "cpanic" => e.ys = Chars(A(e))

(* A string hashes like the str with its text; equal texts hash equally *)
(* h: what a hasher is told of the first, of its text, of the second, of its text, of both in a row, of their texts in a row *)
HashOK(e) == /\ Len(e.h) = 6
             /\ e.op = "hash" => e.h[1] = e.h[2] /\ e.h[3] = e.h[4] /\ e.h[5] = e.h[6]
             /\ A(e) = B(e) => e.h[1] = e.h[3]

MapOps == {"m_insert", "m_get", "m_remove", "m_iter"}
MapVal(k) == IF \E x \in m : x.k = k THEN (CHOOSE x \in m : x.k = k).v + 1 ELSE 0
MapKey(e) == IF e.op = "m_insert" THEN A(e) ELSE e.w
MapOK(e) ==
  IF e.op = "m_iter"
  THEN LET ks == e.ks IN
       /\ {ks[i] : i \in 1..Len(ks)} = {x.k : x \in m}
       /\ \A i \in 1..(Len(ks)-1) : Cmp(ks[i], ks[i+1]) = 0
       /\ e.v = <<Cardinality(m), Cardinality(m)>>
       /\ e.k = "ok"
  ELSE e.k = "ok" /\ e.v = <<MapVal(MapKey(e)), MapVal(MapKey(e))>>
MapNext(e) ==
  CASE e.op = "m_insert" -> {x \in m : x.k # A(e)} \cup {[k |-> A(e), v |-> e.ix]}
    [] e.op = "m_remove" -> {x \in m : x.k # e.w}
    [] OTHER -> m

HashOps == {"hash", "d_hash"}

(* Full conformance of one event to the reference semantics *)
Full(e) ==
  IF e.k = "cpanic" THEN PanicLeaves(n, A(e), e.op, e.ys, e.p) /\ e.q = B(e)
  ELSE IF e.op \in MapOps THEN MapOK(e) /\ e.p = A(e)
  ELSE IF e.op \in WeirdOps THEN WeirdOK(A(e), B(e), e)
  ELSE /\ Conf(e)
       /\ CallsOK(e)
       /\ e.op \in HashOps => HashOK(e)
       /\ e.op = "d_size_hint" => HintOK(A(e), e.h[1])
       /\ e.op \in IterOps => PullOK(n, A(e), e.op, e.ys, e.en, e.k)

(* a view of this name did not show the text *)
Wrong(e, name) == \E i \in 1..Len(e.vw) : e.vw[i][1] = name
(* those views are wrong in themselves, and tell nothing about the state *)
Printed == {"display", "clone"}

TextOK(t) == WellFormed(t) /\ Len(t) <= n
StateOK(e) == /\ TextOK(e.p)
              /\ TextOK(e.q)
              /\ \A i \in 1..Len(e.x) : TextOK(e.x[i][3])
              /\ \A i \in 1..Len(e.vw) : e.vw[i][1] \in Printed
              /\ \A i \in 1..Len(e.st) :            \* length, emptiness, capacity of each object involved
                   LET z == e.st[i] IN z = <<Len(z[4]), BoolV(z[4] = <<>>), n, z[4]>>
PostOK(e) == StateOK(e) /\ e.vw = <<>>             \* every view showed the same bytes

-----------------------------------------------------------------------------
(* Operation families *)
F03 == {"try_from_str", "parse", "try_from_iterator", "try_from_chars", "try_push", "try_push_str",
        "write_str", "write_char", "write_fmt"}
F04 == {"from_str_truncate", "from_ref", "from_iterator_truncate", "collect_strs", "from_chars_truncate",
        "collect_chars", "push_str_truncate", "add", "extend_chars", "extend_char_refs", "extend_strs",
        "insert_str_truncate"}
F05 == {"try_insert", "try_insert_str", "insert_str_truncate", "replace_range", "remove", "truncate",
        "split_off", "drain", "weird_range"}
FSearch == {"d_find", "d_rfind", "d_position", "d_any", "d_all", "d_max", "d_min", "d_into", "d_extend"}
F06 == {"drain", "weird_drain", "d_next", "d_next_back", "d_nth", "d_nth_back", "d_count", "d_last", "d_collect", "d_fold",
        "d_for", "d_rev", "d_rfold", "d_drop", "d_default", "d_copy", "d_clone", "d_cmp", "d_hash", "d_size_hint"} \cup FSearch
F07 == {"pop", "trim", "clear", "retain"}
F08 == {"try_from_utf16", "from_utf16_truncate", "from_utf16_lossy"}
F09 == {"cmp", "max", "min", "eq_str", "hash", "d_cmp", "d_hash"} \cup MapOps
FIndex == {"index", "index_mut_upper", "index_mut_lower"}
F11 == FIndex \cup {"upper_as_mut_str", "upper_deref_mut", "upper_as_mut", "upper_borrow_mut",
        "lower_as_mut_str", "lower_deref_mut", "lower_as_mut", "lower_borrow_mut"}
F12 == {"copy", "clone", "clone_from", "swap", "d_copy", "d_clone"}
F13 == {"ser", "de", "de_other"}
F16 == {"from_array"}
F21 == {"debug", "display", "display_sink", "display_spec", "write_str", "write_char", "write_fmt"}

Dead == {"crash", "hang"}

(* Does event e satisfy property P? *)
Holds(e) ==
  CASE P = "C01" -> PostOK(e)
    [] P = "C02" -> (e.k \in ErrorKinds /\ e.op # "write_fmt")
                      => (e.p = A(e) /\ e.q = B(e) /\ e.x = <<>>)
    [] P = "C03" -> e.op \in F03 => Full(e)
    [] P = "C04" -> e.op \in F04 => Full(e)
    [] P = "C05" -> e.op \in F05 => Full(e)
    [] P = "C06" -> (e.op \in F06 => Full(e)) /\ \A i \in 1..Len(e.x) : e.x[i][1] # "d"
    [] P = "C07" -> e.op \in F07 => Full(e)
    [] P = "C08" -> e.op \in F08 => Full(e)
    [] P = "C09" -> e.op \in F09 => Full(e)
    [] P = "C10" -> /\ e.k \notin Dead
                    /\ (e.k = "panic" => e.op \in FIndex)
                    /\ ~Wrong(e, "bytes-panic") /\ ~Wrong(e, "view-panic")
                    /\ (e.k \notin {"panic", "cpanic"} => e.al = 0)
    [] P = "C11" -> e.op \in F11 => Full(e)
    [] P = "C12" -> /\ e.x = <<>>
                    /\ e.cn = 1
                    /\ ~Wrong(e, "clone")
                    /\ e.op \in F12 => Full(e)
    [] P = "C13" -> e.op \in F13 => Full(e)
    [] P = "C16" -> Full(e)
    [] P = "C18" -> (e.op \in IterOps /\ e.k # "cpanic") =>
                      /\ e.k \notin Dead
                      /\ PullOK(n, A(e), e.op, e.ys, e.en, e.k)
                      /\ e.hint # 0 => Conf(e)
    [] P = "C19" -> /\ e.cp = 1 => e.k = "cpanic"
                    /\ e.k = "cpanic" => (Full(e) /\ PostOK(e) /\ e.x = <<>>)
                    /\ pan => Full(e)
    [] P = "C21" -> ~Wrong(e, "display") /\ (e.op \in F21 => Full(e))
    [] P = "ALL" -> Full(e) /\ PostOK(e) /\ e.x = <<>> /\ e.cn = 1

-----------------------------------------------------------------------------
Init == /\ l = 1 /\ n = 0
        /\ s = [i \in 1..NS |-> <<>>]
        /\ d = [i \in 1..ND |-> <<>>]
        /\ m = {} /\ sane = TRUE /\ pan = FALSE

Start(e) == /\ e.op = "init"
            /\ n' = e.n
            /\ s' = [i \in 1..NS |-> <<>>]
            /\ d' = [i \in 1..ND |-> <<>>]
            /\ m' = {} /\ sane' = TRUE /\ pan' = FALSE

(* Observed state after the event *)
Seen(e, t, i, old) ==
  LET xs == {y \in 1..Len(e.x) : e.x[y][1] = t /\ e.x[y][2] = i} IN
  IF e.t2 = t /\ e.j = i THEN e.q
  ELSE IF e.t = t /\ e.i = i THEN e.p
  ELSE IF xs # {} THEN e.x[CHOOSE y \in xs : TRUE][3] ELSE old

Call(e) == /\ e.op # "init"
           /\ IF sane /\ ~Holds(e) THEN PrintT(<<"BAD", l>>) ELSE TRUE
           /\ s' = [i \in 1..NS |-> Seen(e, "s", i, s[i])]
           /\ d' = [i \in 1..ND |-> Seen(e, "d", i, d[i])]
           /\ m' = IF e.op \in MapOps THEN MapNext(e) ELSE m
           /\ sane' = (sane /\ StateOK(e))
           /\ pan' = (pan \/ e.k = "cpanic")
           /\ n' = n

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN Start(e) \/ Call(e)

Spec == Init /\ [][Next]_vars

Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
