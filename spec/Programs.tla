------------------------------ MODULE Programs ------------------------------
(***************************************************************************)
(* Which safe programs exist: a value lends itself to the results of some  *)
(* of its methods (views), which can be used only as long as nothing       *)
(* contradicts the loan.  Every other result is independent of everything. *)
(* Judges records of small programs offered to the compiler (one per line):*)
(*   loan   over an object (a string, a draining iterator, or an argument  *)
(*          that a string is built from): take a result by method m, go    *)
(*          through the steps, and (u = 1) use the result                  *)
(*   trait  a type has a trait                                             *)
(*   part   a program that reaches into the representation                 *)
(*   const  a program that needs a value before it runs                    *)
(***************************************************************************)
EXTENDS Sequences, Naturals, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Ranges == {"full", "from", "to", "range", "inclusive", "to_inclusive"}
Shared == {"as_str", "deref", "as_ref_str", "as_ref_bytes", "borrow", "chars", "bytes"} \cup {"index_" \o r : r \in Ranges}
Unique == {"as_mut_str", "deref_mut", "as_mut", "borrow_mut"} \cup {"index_mut_" \o r : r \in Ranges}
Owned  == {"clone", "copy", "drain", "split_off", "pop", "remove", "len", "hash", "next", "next_back", "size_hint", "add", "insert", "replace", "display",
           "try_from_str", "from_str_truncate", "from", "parse", "from_iter", "from_chars", "from_utf16", "push", "extend", "eq"}
Loan(m) == CASE m \in Shared -> "shared" [] m \in Unique -> "unique" [] m \in Owned -> "none"

(* What a step needs of the object *)
Needs(step) == CASE step \in {"read", "copy", "share", "send"} -> "look"
                 [] step \in {"change"} -> "alone"
                 [] step \in {"gone"} -> "end"
Steps == {"read", "copy", "share", "send", "change", "gone"}
Allowed(loan, step) == \/ loan = "none"
                       \/ loan = "shared" /\ Needs(step) = "look"

(* The machine: a loan lasts from the taking of the result to its use *)
RECURSIVE Runs(_, _)
Runs(loan, steps) == steps = <<>> \/ (Allowed(loan, Head(steps)) /\ Runs(loan, Tail(steps)))
Accepted(m, steps, used) == ~used \/ Runs(Loan(m), steps)

(* Laws *)
Short == UNION {[1..k -> Steps] : k \in 0..3}
ASSUME \A m \in Owned : \A p \in Short : Accepted(m, p, TRUE)                      \* nothing that is not a view borrows
ASSUME \A m \in Shared \cup Unique : \A p \in Short : Accepted(m, p, FALSE)        \* a view that is not used again forbids nothing
ASSUME \A v \in Shared, m \in Unique : \A p \in Short : Accepted(m, p, TRUE) => Accepted(v, p, TRUE)
ASSUME \A m \in Shared \cup Unique : \A p \in Short : (\E i \in DOMAIN p : p[i] \in {"change", "gone"}) => ~Accepted(m, p, TRUE)

Value == {"Copy", "Clone", "Send", "Sync", "Unpin", "UnwindSafe", "RefUnwindSafe", "Static", "Default", "Debug", "Eq"}
Traits(ty) == CASE ty \in {"string", "cache"} -> Value \cup {"Ord", "Hash", "Display", "Write"}
                [] ty = "drain" -> Value \cup {"Ord", "Hash", "Iterator", "DoubleEndedIterator", "FusedIterator"}
                [] ty = "error" -> (Value \ {"Default"}) \cup {"Hash", "Display", "Error"}
                [] ty \in {"utf8", "utf16", "out_of_bounds"} -> Value \cup {"Display", "Error"}
(* safe ways to bytes that need not be text, or that hash and compare unlike the text *)
Never == {"AsMutBytes", "BorrowBytes", "BorrowMutBytes", "IndexMutByte", "DerefMutBytes"}

Known(e) == e.op = "trait" => e.tr \in Never \cup Traits(e.ty)
Expected(e) == CASE e.op = "loan" -> Accepted(e.m, e.steps, e.u = 1)
                 [] e.op = "trait" -> e.tr \notin Never
                 [] e.op = "part" -> FALSE
                 [] e.op = "const" -> TRUE

VARIABLES l
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Assert(Known(Trace[l]), <<"unknown program", l>>)
        /\ IF Expected(Trace[l]) <=> Trace[l].ok = 1 THEN TRUE ELSE PrintT(<<"BAD", l>>)
Spec == Init /\ [][Next]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
