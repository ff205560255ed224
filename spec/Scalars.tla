------------------------------ MODULE Scalars ------------------------------
(***************************************************************************)
(* The notions of Utf on every Unicode scalar value and on every sequence  *)
(* of at most four bytes that could be a character, in blocks: encodings   *)
(* are well formed, distinct, in the order of the code points, decode to   *)
(* what was encoded, through UTF-16 as well; nothing else is a character.  *)
(* EVERY: only one block in EVERY (all when it is 1).                      *)
(***************************************************************************)
EXTENDS Utf, TLC, IOUtils

EVERY == atoi(IOEnv.EVERY)
SEED == atoi(IOEnv.SEED)
Block == 1024
Blocks == {b \in 0..(1114112 \div Block) - 1 : (b + SEED) % EVERY = 0}
Leads == 128..255

VARIABLE at      \* <<>>, <<"scalars", block>> or <<"bytes", first byte, second byte>>
Init == at = <<>>
Next == /\ at = <<>>
        /\ \/ \E b \in Blocks : at' = <<"scalars", b, 0>>
           \/ \E x \in Leads, y \in 0..255 : (x + y + SEED) % EVERY = 0 /\ at' = <<"bytes", x, y>>
Spec == Init /\ [][Next]_at

NextScalar(c) == IF c = 55295 THEN 57344 ELSE c + 1
Right(c) ==
  LET e == Encode(c)  u == EncodeUtf16(c) IN
  /\ WellFormed(e)
  /\ Len(e) = IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
  /\ Need(e[1]) = Len(e) - 1
  /\ Chars(e \o e) = <<e, e>>
  /\ CodePoint(e) = c
  /\ DecodeUtf16(u) = <<e>>
  /\ \A i \in 1..Len(u) : DecodeUtf16(<<u[i]>>) = (IF Len(u) = 1 THEN <<e>> ELSE <<<<>>>>)
  /\ Len(u) = 2 => DecodeUtf16(<<u[2], u[1]>>) = <<<<>>, <<>>>>
  /\ c < 1114111 => Cmp(e, Encode(NextScalar(c))) = 0
  /\ \A k \in 1..Len(e) - 1 : ~WellFormed(Prefix(e, k)) /\ ~WellFormed(Suffix(e, k)) /\ ~Bd(e, k)
ScalarsRight == (at # <<>> /\ at[1] = "scalars") =>
                \A c \in (at[2] * Block)..(at[2] * Block + Block - 1) : IsScalar(c) => Right(c)

(* A well-formed sequence that starts with x, y and is a single character is the encoding of its code point *)
One(t) == WellFormed(t) => /\ IsScalar(CodePoint(t)) /\ Encode(CodePoint(t)) = t
Ends == {128, 143, 144, 159, 160, 191}
BytesRight == (at # <<>> /\ at[1] = "bytes") =>
              LET x == at[2]  y == at[3] IN
              /\ Need(x) = 1 => One(<<x, y>>)
              /\ Need(x) = 2 => \A z \in 126..194 : One(<<x, y, z>>)
              /\ Need(x) = 3 => \A z \in Ends \cup {127, 192}, v \in 126..194 : One(<<x, y, z, v>>)
              /\ ~WellFormed(<<x>>)
              /\ Need(x) # 1 => ~WellFormed(<<x, y>>) /\ ~WellFormed(<<x, y, 65>>)
=============================================================================
