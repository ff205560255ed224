-------------------------------- MODULE Utf --------------------------------
(***************************************************************************)
(* Text as the library's users see it: a finite sequence of bytes, on      *)
(* which character boundaries, characters, code points, white space,       *)
(* UTF-16 decoding and the byte order are defined.  Everything here is a    *)
(* definition of Unicode/std notions; nothing refers to the implementation.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

IsCont(b) == b >= 128 /\ b < 192

(* Number of continuation bytes a leading byte announces; -1: not a leading byte. *)
Need(b) == IF b < 128 THEN 0
           ELSE IF b < 194 THEN -1
           ELSE IF b < 224 THEN 1
           ELSE IF b < 240 THEN 2
           ELSE IF b < 245 THEN 3
           ELSE -1

(* Second-byte ranges of Unicode table 3-7 *)
SecondOK(b, c) == CASE b = 224 -> c >= 160 /\ c <= 191
                    [] b = 237 -> c >= 128 /\ c <= 159
                    [] b = 240 -> c >= 144 /\ c <= 191
                    [] b = 244 -> c >= 128 /\ c <= 143
                    [] OTHER   -> IsCont(c)

WellFormed(t) ==
  \A i \in 1..Len(t) :
    LET b == t[i] IN
    /\ b \in 0..255
    /\ IF IsCont(b)
       THEN \E k \in 1..3 : k < i /\ Need(t[i-k]) >= k
       ELSE LET n == Need(b) IN
            /\ n >= 0
            /\ i + n <= Len(t)
            /\ n > 0 => SecondOK(b, t[i+1])
            /\ \A k \in 1..n : IsCont(t[i+k])

(* Is offset i (0..Len(t)) a character boundary of t? *)
Bd(t, i) == i = 0 \/ i = Len(t) \/ (i < Len(t) /\ ~IsCont(t[i+1]))

Prefix(t, k) == SubSeq(t, 1, k)
Suffix(t, k) == SubSeq(t, k+1, Len(t))
Slice(t, a, b) == SubSeq(t, a+1, b)

(* The characters of t, each as its byte sequence *)
Chars(t) == FoldLeft(LAMBDA acc, b : IF IsCont(b) /\ Len(acc) > 0
                                     THEN [acc EXCEPT ![Len(acc)] = Append(@, b)]
                                     ELSE Append(acc, <<b>>),
                     <<>>, t)
Concat(ws) == FoldLeft(LAMBDA acc, w : acc \o w, <<>>, ws)

(* Offset of the end of the character that starts at boundary i < Len(t) *)
CharEnd(t, i) == CHOOSE j \in (i+1)..Min2(i+4, Len(t)) :
                    Bd(t, j) /\ \A k \in (i+1)..(j-1) : ~Bd(t, k)
CharAt(t, i) == Slice(t, i, CharEnd(t, i))
(* Offset of the start of the last character of non-empty t *)
LastStart(t) == CHOOSE j \in Max2(0, Len(t)-4)..(Len(t)-1) :
                    Bd(t, j) /\ \A k \in (j+1)..(Len(t)-1) : ~Bd(t, k)

(* Length of the longest prefix of w that ends on a boundary and has at most room bytes.
   (A character has at most 4 bytes, so only the last 4 offsets matter: MC.tla checks
   this against the definition FitDef.) *)
FitDef(w, room) == CHOOSE k \in 0..Min2(room, Len(w)) :
                      Bd(w, k) /\ \A j \in (k+1)..Min2(room, Len(w)) : ~Bd(w, j)
Fit(w, room) == IF Len(w) <= room THEN Len(w)
                ELSE CHOOSE k \in Max2(0, room-3)..room :
                        Bd(w, k) /\ \A j \in (k+1)..room : ~Bd(w, j)
Trunc(w, room) == Prefix(w, Fit(w, room))

CodePoint(ch) ==
  CASE Len(ch) = 1 -> ch[1]
    [] Len(ch) = 2 -> (ch[1] - 192) * 64 + (ch[2] - 128)
    [] Len(ch) = 3 -> (ch[1] - 224) * 4096 + (ch[2] - 128) * 64 + (ch[3] - 128)
    [] Len(ch) = 4 -> (ch[1] - 240) * 262144 + (ch[2] - 128) * 4096 + (ch[3] - 128) * 64 + (ch[4] - 128)
    [] OTHER -> -1

Encode(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

IsScalar(c) == c \in 0..55295 \/ c \in 57344..1114111
Replacement == <<239, 191, 189>>      \* U+FFFD

(* Unicode White_Space *)
WhiteSpace == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}
IsWs(ch) == CodePoint(ch) \in WhiteSpace

(* Text without leading and trailing white space *)
TrimmedChars(cs) ==
  LET keep == {i \in 1..Len(cs) : ~IsWs(cs[i])} IN
  IF keep = {} THEN <<>>
  ELSE LET lo == CHOOSE i \in keep : \A j \in keep : i <= j
           hi == CHOOSE i \in keep : \A j \in keep : i >= j
       IN SubSeq(cs, lo, hi)
Trimmed(t) == Concat(TrimmedChars(Chars(t)))

(* ASCII case mapping, used to observe writes through mutable views *)
UpperByte(b) == IF b >= 97 /\ b <= 122 THEN b - 32 ELSE b
LowerByte(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
MapBytes(F(_), t) == [i \in 1..Len(t) |-> F(t[i])]
Upper(t) == MapBytes(UpperByte, t)
Lower(t) == MapBytes(LowerByte, t)

(* Lexicographic order of bytes: 0 less, 1 equal, 2 greater *)
Cmp(a, b) ==
  LET m == Min2(Len(a), Len(b))
      d == {i \in 1..m : a[i] # b[i]}
  IN IF d = {} THEN (IF Len(a) < Len(b) THEN 0 ELSE IF Len(a) = Len(b) THEN 1 ELSE 2)
     ELSE LET i == CHOOSE x \in d : \A y \in d : x <= y
          IN IF a[i] < b[i] THEN 0 ELSE 2

(* UTF-16: a sequence whose elements are characters, or <<>> for an unpaired surrogate *)
IsHigh(u) == u >= 55296 /\ u < 56320
IsLow(u)  == u >= 56320 /\ u < 57344
DecodeUtf16(us) ==
  LET Step(acc, u) ==
        IF acc.hi >= 0 /\ IsLow(u)
        THEN [hi |-> -1,
              out |-> Append(acc.out, Encode(65536 + (acc.hi - 55296) * 1024 + (u - 56320)))]
        ELSE LET out1 == IF acc.hi >= 0 THEN Append(acc.out, <<>>) ELSE acc.out
             IN IF IsHigh(u) THEN [hi |-> u, out |-> out1]
                ELSE IF IsLow(u) THEN [hi |-> -1, out |-> Append(out1, <<>>)]
                ELSE [hi |-> -1, out |-> Append(out1, Encode(u))]
      end == FoldLeft(Step, [hi |-> -1, out |-> <<>>], us)
  IN IF end.hi >= 0 THEN Append(end.out, <<>>) ELSE end.out
EncodeUtf16(c) == IF c < 65536 THEN <<c>>
                  ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>

(* Is a a subsequence of b (both sequences of characters)? *)
IsSubseq(a, b) ==
  LET left == FoldLeft(LAMBDA acc, x : IF acc <= Len(a) /\ a[acc] = x THEN acc + 1 ELSE acc, 1, b)
  IN left > Len(a)
=============================================================================
