------------------------------- MODULE Text -------------------------------
(* Texts are sequences of Unicode code points, byte strings are sequences  *)
(* of 0..255, optional values are <<>> (absent) or <<x>> (present).        *)
(* Everything that the other modules need to know about characters is here.*)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

(***************************************************************************)
(* Literals                                                                *)
(***************************************************************************)
AsciiChars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf == [c \in {SubSeq(AsciiChars, i, i) : i \in 1..95} |->
             31 + CHOOSE i \in 1..95 : SubSeq(AsciiChars, i, i) = c]

\* The text of a TLA+ string literal. A concatenation is evaluated at once by
\* TLC, a function when it is applied and each time it is
T(str) == <<>> \o [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]

TAB == 9
LF == 10
CR == 13
SP == 32
QUOTE == 34
HASH == 35
COMMA == 44
COLON == 58
LBRACKET == 91
BACKSLASH == 92
RBRACKET == 93
BOM == 65279
NUL == 0
EOT == 4

IsDigit(c) == c >= 48 /\ c <= 57

\* White_Space of Unicode
IsWs(c) == \/ c = 32 \/ (c >= 9 /\ c <= 13)
           \/ c >= 133 /\ (\/ c \in {133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
                           \/ (c >= 8192 /\ c <= 8202))

\* White space that separates the tokens of a line
IsAsciiWs(c) == c = 32 \/ c = 9 \/ c = 10 \/ c = 12 \/ c = 13

(***************************************************************************)
(* Sequences                                                               *)
(***************************************************************************)
Last1(s) == s[Len(s)]
IsNone(o) == o = <<>>
OrEmpty(o) == IF o = <<>> THEN <<>> ELSE o[1]

StartsWith(s, p) == Len(s) >= Len(p) /\ \A i \in 1..Len(p) : s[i] = p[i]

DropN(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))

\* First index >= i with a code that is c, or that passes a test, 0 when
\* there is none. Long texts are walked without recursion, as each step of it
\* costs TLC the more the deeper it is
IndexFrom(s, c, i) ==
    IF \E j \in i..Len(s) : s[j] = c
    THEN CHOOSE j \in i..Len(s) : s[j] = c /\ \A k \in i..(j - 1) : s[k] # c
    ELSE 0
FirstFrom(s, i, Test(_)) ==
    IF \E j \in i..Len(s) : Test(s[j])
    THEN CHOOSE j \in i..Len(s) : Test(s[j]) /\ \A k \in i..(j - 1) : ~Test(s[k])
    ELSE 0

HasCode(s, c) == \E i \in 1..Len(s) : s[i] = c

SkipWs(s, i) == LET j == FirstFrom(s, i, LAMBDA c : ~IsWs(c))
                IN IF j = 0 THEN (IF i > Len(s) THEN i ELSE Len(s) + 1) ELSE j

RECURSIVE SkipWsBack(_, _)
SkipWsBack(s, i) == IF i >= 1 /\ IsWs(s[i]) THEN SkipWsBack(s, i - 1) ELSE i

TrimStart(s) == LET i == SkipWs(s, 1) IN IF i = 1 THEN s ELSE DropN(s, i - 1)
TrimEnd(s) == LET j == SkipWsBack(s, Len(s))
              IN IF j = Len(s) THEN s ELSE SubSeq(s, 1, j)
Trim(s) == TrimEnd(TrimStart(s))

IndexesOf(s, Test(_)) == SelectSeq([i \in 1..Len(s) |-> i], Test)

\* Split at every c: always at least one piece
Split(s, c) ==
    LET at == IndexesOf(s, LAMBDA i : s[i] = c)
        n == Len(at)
    IN IF n = 0 THEN <<s>>
       ELSE <<>> \o [k \in 1..(n + 1) |-> SubSeq(s, IF k = 1 THEN 1 ELSE at[k - 1] + 1,
                                                   IF k > n THEN Len(s) ELSE at[k] - 1)]

\* Maximal runs of characters that are not white space
Words(s) ==
    LET first == IndexesOf(s, LAMBDA i : ~IsWs(s[i]) /\ (i = 1 \/ (i > 1 /\ IsWs(s[i - 1]))))
        last == IndexesOf(s, LAMBDA i : ~IsWs(s[i]) /\ (i = Len(s) \/ (i < Len(s) /\ IsWs(s[i + 1]))))
    IN <<>> \o [k \in 1..Len(first) |-> SubSeq(s, first[k], last[k])]

\* The same with ASCII white space only, at most `max` of them
SkipAWs(s, i) == LET j == FirstFrom(s, i, LAMBDA c : ~IsAsciiWs(c)) IN IF j = 0 THEN Len(s) + 1 ELSE j
NonAWsEnd(s, i) == LET j == FirstFrom(s, i, IsAsciiWs) IN IF j = 0 THEN Len(s) ELSE j - 1
RECURSIVE TokensFrom(_, _, _, _)
TokensFrom(s, i, acc, max) ==
    IF Len(acc) = max THEN acc
    ELSE LET b == SkipAWs(s, i)
         IN IF b > Len(s) THEN acc
            ELSE LET e == NonAWsEnd(s, b)
                 IN TokensFrom(s, e + 1, Append(acc, SubSeq(s, b, e)), max)
Tokens(s, max) == TokensFrom(s, 1, <<>>, max)

\* Long concatenations are made by halves
RECURSIVE ConcatIn(_, _, _)
ConcatIn(ss, a, b) ==
    IF b - a < 16 THEN FoldLeft(LAMBDA x, y : x \o y, <<>>, SubSeq(ss, a, b))
    ELSE LET m == (a + b) \div 2 IN ConcatIn(ss, a, m) \o ConcatIn(ss, m + 1, b)
Concat(ss) == ConcatIn(ss, 1, Len(ss))
Join(ss, sep) ==
    IF ss = <<>> THEN <<>>
    ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, ss[1], Tail(ss))
Map(ss, Op(_)) == <<>> \o [i \in 1..Len(ss) |-> Op(ss[i])]
Filter(ss, Test(_)) == SelectSeq(ss, Test)

\* The lines of a document: ended by LF, with an optional CR before it
StripCr(s) == IF s # <<>> /\ Last1(s) = CR THEN SubSeq(s, 1, Len(s) - 1) ELSE s
DocLines(s) ==
    IF s = <<>> THEN <<>>
    ELSE LET p == Split(s, LF)
             n == Len(p)
             full == [i \in 1..(n - 1) |-> StripCr(p[i])]
         IN IF p[n] = <<>> THEN full ELSE Append(full, p[n])

(***************************************************************************)
(* Numbers                                                                 *)
(***************************************************************************)
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN StripZeros(Tail(s)) ELSE s

\* Value of a sequence of digits, values over 100000 being clamped to it
Clamp == 100000
DigitsValue(s) ==
    IF Len(StripZeros(s)) > 5 THEN Clamp
    ELSE FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, s)

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>

(***************************************************************************)
(* Escapes                                                                 *)
(***************************************************************************)
\* Characters that have an escape, and the letter of it
EscapePairs == { <<34, 34>>, <<10, 110>>, <<13, 114>>, <<9, 116>>,
                 <<17, 118>>, <<8, 98>>, <<18, 102>>, <<92, 92>> }
Escapable == { p[1] : p \in EscapePairs }
EscapeLetters == { p[2] : p \in EscapePairs }
LetterOf == [c \in Escapable |-> (CHOOSE p \in EscapePairs : p[1] = c)[2]]
CharOf == [l \in EscapeLetters |-> (CHOOSE p \in EscapePairs : p[2] = l)[1]]

NeedsEscape(c) == c <= 92 /\ c \in Escapable
Escape(s) ==
    IF \E i \in 1..Len(s) : NeedsEscape(s[i])
    THEN Concat(Map(s, LAMBDA c : IF NeedsEscape(c) THEN <<BACKSLASH, LetterOf[c]>> ELSE <<c>>))
    ELSE s

\* Result of unescaping: kind "ok" with the text, "end" for a dangling
\* backslash, "bad" with the character that can not be escaped and the
\* text after it
RECURSIVE UnescFrom(_, _, _)
UnescFrom(s, i, acc) ==
    IF i > Len(s) THEN [kind |-> "ok", text |-> acc, char |-> 0]
    ELSE IF s[i] # BACKSLASH THEN UnescFrom(s, i + 1, Append(acc, s[i]))
    ELSE IF i = Len(s) THEN [kind |-> "end", text |-> <<>>, char |-> 0]
    ELSE IF s[i + 1] \in EscapeLetters
         THEN UnescFrom(s, i + 2, Append(acc, CharOf[s[i + 1]]))
    ELSE [kind |-> "bad", text |-> SubSeq(s, i + 2, Len(s)), char |-> s[i + 1]]

RECURSIVE TrailingBackslashes(_, _)
TrailingBackslashes(s, i) ==
    IF i >= 1 /\ s[i] = BACKSLASH THEN 1 + TrailingBackslashes(s, i - 1) ELSE 0
\* Whether a position is between a backslash and the character it escapes
InsideEscape(s, n) == TrailingBackslashes(s, n) % 2 = 1

\* The same at once, for long texts
UnescWhole(s) ==
    LET n == Len(s)
        Opens(i) == s[i] = BACKSLASH /\ ~InsideEscape(s, i - 1)
        wrong == { i \in 1..n : Opens(i) /\ (i = n \/ (i < n /\ s[i + 1] \notin EscapeLetters)) }
    IN IF wrong # {}
       THEN LET i == CHOOSE x \in wrong : \A y \in wrong : x <= y
            IN IF i = n THEN [kind |-> "end", text |-> <<>>, char |-> 0]
               ELSE [kind |-> "bad", text |-> SubSeq(s, i + 2, n), char |-> s[i + 1]]
       ELSE [kind |-> "ok", char |-> 0,
             text |-> Concat([i \in 1..n |-> IF Opens(i) THEN <<>>
                                             ELSE IF InsideEscape(s, i - 1) THEN <<CharOf[s[i]]>>
                                             ELSE <<s[i]>>])]
Unescape(s) ==
    IF ~HasCode(s, BACKSLASH) THEN [kind |-> "ok", text |-> s, char |-> 0]
    ELSE IF Len(s) > 100 THEN UnescWhole(s) ELSE UnescFrom(s, 1, <<>>)

\* Position of the first double quote that is not escaped, 0 if none
RECURSIVE QuoteFrom(_, _)
QuoteFrom(s, i) ==
    LET j == IndexFrom(s, QUOTE, i)
    IN IF j = 0 THEN 0 ELSE IF InsideEscape(s, j - 1) THEN QuoteFrom(s, j + 1) ELSE j
UnescapedQuote(s) == QuoteFrom(s, 1)

(***************************************************************************)
(* UTF-8                                                                   *)
(***************************************************************************)
Utf8Of(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
    ELSE IF c < 65536
    THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64),
           128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(s) ==
    IF \A i \in 1..Len(s) : s[i] < 128 THEN s
    ELSE Concat(Map(s, Utf8Of))

\* Decoding: <<TRUE, text>>, or <<FALSE, <<>>>> for invalid bytes
IsCont(b) == b >= 128 /\ b < 192
\* Length of the sequence that begins at i, 0 when it is not valid
SeqLen(b, i) ==
    LET c == b[i]
        n == Len(b)
        C(k) == i + k <= n /\ IsCont(b[i + k])
    IN IF c < 128 THEN 1
       ELSE IF c >= 194 /\ c <= 223 THEN (IF C(1) THEN 2 ELSE 0)
       ELSE IF c >= 224 /\ c <= 239
       THEN (IF /\ C(1) /\ C(2)
                /\ (c = 224 => b[i + 1] >= 160)
                /\ (c = 237 => b[i + 1] < 160) THEN 3 ELSE 0)
       ELSE IF c >= 240 /\ c <= 244
       THEN (IF /\ C(1) /\ C(2) /\ C(3)
                /\ (c = 240 => b[i + 1] >= 144)
                /\ (c = 244 => b[i + 1] < 144) THEN 4 ELSE 0)
       ELSE 0
CodeAt(b, i, n) ==
    CASE n = 1 -> b[i]
      [] n = 2 -> (b[i] - 192) * 64 + (b[i + 1] - 128)
      [] n = 3 -> (b[i] - 224) * 4096 + (b[i + 1] - 128) * 64 + (b[i + 2] - 128)
      [] n = 4 -> (b[i] - 240) * 262144 + (b[i + 1] - 128) * 4096
                  + (b[i + 2] - 128) * 64 + (b[i + 3] - 128)
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(b, i, acc) ==
    IF i > Len(b) THEN <<TRUE, acc>>
    ELSE LET n == SeqLen(b, i)
         IN IF n = 0 THEN <<FALSE, <<>>>>
            ELSE DecodeFrom(b, i + n, Append(acc, CodeAt(b, i, n)))
\* The same at once, for long texts
ValidUtf8(b) ==
    \A i \in 1..Len(b) :
      IF IsCont(b[i]) THEN \E k \in 1..3 : i > k /\ SeqLen(b, i - k) > k
      ELSE SeqLen(b, i) > 0
DecodeWhole(b) ==
    IF ValidUtf8(b)
    THEN <<TRUE, Map(SelectSeq([i \in 1..Len(b) |-> i], LAMBDA i : ~IsCont(b[i])),
                     LAMBDA i : CodeAt(b, i, SeqLen(b, i)))>>
    ELSE <<FALSE, <<>>>>
Decode(b) ==
    IF \A i \in 1..Len(b) : b[i] < 128 THEN <<TRUE, b>>
    ELSE IF Len(b) > 100 THEN DecodeWhole(b) ELSE DecodeFrom(b, 1, <<>>)

(***************************************************************************)
(* Orders                                                                  *)
(***************************************************************************)
\* -1, 0 or 1. Code point order and UTF-8 byte order are the same order.
CmpInt(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
CmpText(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
    IN IF \E i \in 1..n : a[i] # b[i]
       THEN LET i == CHOOSE i \in 1..n : a[i] # b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
            IN CmpInt(a[i], b[i])
       ELSE CmpInt(Len(a), Len(b))
\* Sequences of texts, of pairs of texts...
RECURSIVE CmpTextsFrom(_, _, _)
CmpTextsFrom(a, b, i) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
    ELSE IF i > Len(b) THEN 1
    ELSE LET r == CmpText(a[i], b[i])
         IN IF r # 0 THEN r ELSE CmpTextsFrom(a, b, i + 1)
CmpTexts(a, b) == CmpTextsFrom(a, b, 1)
RECURSIVE CmpPairsFrom(_, _, _)
CmpPairsFrom(a, b, i) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
    ELSE IF i > Len(b) THEN 1
    ELSE LET r == CmpTexts(a[i], b[i])
         IN IF r # 0 THEN r ELSE CmpPairsFrom(a, b, i + 1)
CmpPairs(a, b) == CmpPairsFrom(a, b, 1)

\* Insertion of an element in a sequence ordered by Cmp, after its equals
InsertBy(s, x, Cmp(_, _)) ==
    LET n == Cardinality({ i \in 1..Len(s) : Cmp(s[i], x) <= 0 })
    IN SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n + 1, Len(s))
\* Stable sort
SortBy(s, Cmp(_, _)) == FoldLeft(LAMBDA a, x : InsertBy(a, x, Cmp), <<>>, s)

\* Whether two sequences have the same elements the same number of times
SameBag(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A i \in 1..Len(a) :
         Cardinality({ j \in 1..Len(a) : a[j] = a[i] })
         = Cardinality({ j \in 1..Len(b) : b[j] = a[i] })
============================================================================
