--------------------------------- MODULE Mo ---------------------------------
(* MO catalogs: messages, images (sequences of bytes) and the reader of    *)
(* images as a machine that takes one number, row or string at a time.     *)
EXTENDS PoReader, Natural

(***************************************************************************)
(* Numbers: 32 bits in one of the byte orders. Values over 24 bits are out *)
(* of any image here, all of them are Huge.                                *)
(***************************************************************************)
Huge == 16777216
Bytes4(b, at) == SubSeq(b, at + 1, at + 4)
Has(b, at, n) == at + n <= Len(b)
Number(q, be) ==
    LET r == IF be THEN Reverse(q) ELSE q
    IN IF r[4] > 0 THEN Huge ELSE r[1] + 256 * r[2] + 65536 * r[3]
Num(b, at, be) == Number(Bytes4(b, at), be)
\* Bytes of a number
Word4(n, be) ==
    LET le == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
    IN IF be THEN Reverse(le) ELSE le
MagicLE == <<222, 18, 4, 149>>
MagicOf(be) == IF be THEN Reverse(MagicLE) ELSE MagicLE

(***************************************************************************)
(* Lossy decoding of UTF-8: invalid parts are replaced                     *)
(***************************************************************************)
Replacement == 65533
\* Length of the part at i that is not valid
InvalidLen(b, i) ==
    LET c == b[i]
        n == Len(b)
        Second == /\ i + 1 <= n /\ IsCont(b[i + 1])
                  /\ (c = 224 => b[i + 1] >= 160) /\ (c = 237 => b[i + 1] < 160)
                  /\ (c = 240 => b[i + 1] >= 144) /\ (c = 244 => b[i + 1] < 144)
    IN IF c >= 224 /\ c <= 239 THEN (IF Second THEN 2 ELSE 1)
       ELSE IF c >= 240 /\ c <= 244
       THEN (IF ~Second THEN 1
             ELSE IF i + 2 <= n /\ IsCont(b[i + 2]) THEN 3 ELSE 2)
       ELSE 1
RECURSIVE LossyFrom(_, _, _)
LossyFrom(b, i, acc) ==
    IF i > Len(b) THEN acc
    ELSE LET n == SeqLen(b, i)
         IN IF n = 0 THEN LossyFrom(b, i + InvalidLen(b, i), Append(acc, Replacement))
            ELSE LossyFrom(b, i + n, Append(acc, CodeAt(b, i, n)))
Lossy(b) == IF \A i \in 1..Len(b) : b[i] < 128 THEN b
            ELSE IF Len(b) > 100 /\ ValidUtf8(b) THEN DecodeWhole(b)[2]
            ELSE LossyFrom(b, 1, <<>>)

(***************************************************************************)
(* Messages                                                                *)
(***************************************************************************)
Key(m) == (IF m.ctx = <<>> THEN <<>> ELSE m.ctx[1] \o <<EOT>>) \o m.id
          \o (IF m.pl = <<>> THEN <<>> ELSE <<NUL>> \o m.pl[1])
Value(m) == IF m.pl # <<>> THEN Join(m.strs, <<NUL>>) ELSE OrEmpty(m.str)

MetaText(meta) == Join(Map(OrderedMeta(meta), LAMBDA p : p[1] \o T(": ") \o p[2]), <<LF>>)

\* The message of a key and a value. The single translation of a message
\* with plural forms means nothing
MessageOf(key, val) ==
    LET parts == Split(key, NUL)
        first == parts[1]
        toks == Split(first, EOT)
        hasctx == Len(toks) = 2
        plural == Len(parts) > 1
    IN [ id |-> IF hasctx THEN toks[2] ELSE first,
         ctx |-> IF hasctx THEN <<toks[1]>> ELSE <<>>,
         pl |-> IF plural THEN <<parts[2]>> ELSE <<>>,
         strs |-> IF plural THEN Split(val, NUL) ELSE <<>>,
         str |-> IF plural THEN <<>> ELSE <<val>> ]
Meaning(m) == [ id |-> m.id, ctx |-> m.ctx, pl |-> m.pl,
                strs |-> IF m.pl = <<>> THEN <<>> ELSE m.strs,
                str |-> IF m.pl = <<>> THEN <<OrEmpty(m.str)>> ELSE <<>> ]
\* No forms are the same as an empty one
Compiled(m) == LET n == Meaning(m)
               IN IF n.pl # <<>> /\ n.strs = <<>> THEN [n EXCEPT !.strs = <<<<>>>>] ELSE n

\* The last value of a repeated name is the good one
MoMeta(text) ==
    FoldLeft(LAMBDA m, line :
               LET c == IndexFrom(line, COLON, 1)
                   name == IF c = 0 THEN line ELSE SubSeq(line, 1, c - 1)
                   val == IF c = 0 THEN <<>> ELSE Trim(DropN(line, c))
               IN IF name = <<>> THEN m
                  ELSE Append(SelectSeq(m, LAMBDA p : p[1] # name), <<name, val>>),
             <<>>, Split(text, LF))

(***************************************************************************)
(* Reader                                                                  *)
(***************************************************************************)
InitMo == [ ph |-> "magic", be |-> FALSE, rev |-> 0, n |-> 0, kt |-> 0, vt |-> 0, i |-> 0,
            kix |-> <<>>, vix |-> <<>>, meta |-> <<>>, ents |-> <<>>,
            kind |-> "", part |-> <<>> ]
MoFail(s, kind, part) == [s EXCEPT !.ph = "failed", !.kind = kind, !.part = part]
Idx(s) == <<Digits(s.i)>>

\* Rows of a table: a length and an offset
ReadRow(b, s, table, what) ==
    LET at == table + 8 * s.i
    IN IF ~Has(b, at, 4) THEN MoFail(s, "data", <<T(what), T("length")>> \o Idx(s))
       ELSE IF ~Has(b, at, 8) THEN MoFail(s, "data", <<T(what), T("offset")>> \o Idx(s))
       ELSE LET row == <<Num(b, at, s.be), Num(b, at + 4, s.be)>>
            IN IF what = "msgid" THEN [s EXCEPT !.kix = Append(@, row), !.i = @ + 1]
               ELSE [s EXCEPT !.vix = Append(@, row), !.i = @ + 1]
Inside(b, row) == row[2] <= Len(b) /\ Has(b, row[2], row[1])
StringAt(b, row) == Lossy(SubSeq(b, row[2] + 1, row[2] + row[1]))

MoStep(b, s) ==
    CASE s.ph = "magic" ->
           IF ~Has(b, 0, 4) THEN MoFail(s, "short", <<>>)
           ELSE IF Bytes4(b, 0) = MagicLE THEN [s EXCEPT !.ph = "revision"]
           ELSE IF Bytes4(b, 0) = Reverse(MagicLE) THEN [s EXCEPT !.ph = "revision", !.be = TRUE]
           ELSE MoFail(s, "magic", <<>>)
      [] s.ph = "revision" ->
           IF ~Has(b, 4, 4) THEN MoFail(s, "data", <<T("revision")>>)
           ELSE IF Num(b, 4, s.be) \notin {0, 1} THEN MoFail(s, "revision", <<>>)
           ELSE [s EXCEPT !.ph = "count", !.rev = Num(b, 4, s.be)]
      [] s.ph = "count" ->
           IF ~Has(b, 8, 4) THEN MoFail(s, "data", <<T("strings")>>)
           ELSE [s EXCEPT !.ph = "ids", !.n = Num(b, 8, s.be)]
      [] s.ph = "ids" ->
           IF ~Has(b, 12, 4) THEN MoFail(s, "data", <<T("msgids"), T("offset")>>)
           ELSE [s EXCEPT !.ph = "strs", !.kt = Num(b, 12, s.be)]
      [] s.ph = "strs" ->
           IF ~Has(b, 16, 4) THEN MoFail(s, "data", <<T("msgstrs"), T("offset")>>)
           ELSE [s EXCEPT !.ph = "kix", !.vt = Num(b, 16, s.be)]
      [] s.ph = "kix" ->
           IF s.i = s.n THEN [s EXCEPT !.ph = "vix", !.i = 0] ELSE ReadRow(b, s, s.kt, "msgid")
      [] s.ph = "vix" ->
           IF s.i = s.n THEN [s EXCEPT !.ph = "texts", !.i = 0] ELSE ReadRow(b, s, s.vt, "msgstr")
      [] s.ph = "texts" ->
           IF s.i = s.n THEN [s EXCEPT !.ph = "done"]
           ELSE LET k == s.kix[s.i + 1]
                    v == s.vix[s.i + 1]
                IN IF ~Inside(b, k) THEN MoFail(s, "data", <<T("msgid")>> \o Idx(s))
                   ELSE IF ~Inside(b, v) THEN MoFail(s, "data", <<T("msgstr")>> \o Idx(s))
                   ELSE LET key == StringAt(b, k)
                            val == StringAt(b, v)
                        IN IF s.i = 0 /\ key = <<>>
                           THEN [s EXCEPT !.meta = MoMeta(val), !.i = 1]
                           ELSE [s EXCEPT !.ents = Append(@, MessageOf(key, val)), !.i = @ + 1]

MoEnded(s) == s.ph \in {"done", "failed"}
RECURSIVE MoRun(_, _)
MoRun(b, s) == IF MoEnded(s) THEN s ELSE MoRun(b, MoStep(b, s))
ReadMo(b) == MoRun(b, InitMo)
MoOutcome(s) ==
    IF s.ph = "done"
    THEN [ok |-> TRUE, meta |-> s.meta, ents |-> s.ents, be |-> s.be, rev |-> s.rev]
    ELSE [ok |-> FALSE, kind |-> s.kind, part |-> s.part]

(***************************************************************************)
(* Comparison of an outcome of the reader with an observed one             *)
(***************************************************************************)
WordsOf(text) == { w \in Range1(Words(text)) : TRUE }
MoDiff(exp, r) ==
    IF ~r.ok /\ r.kind = "panic" THEN "panic"
    ELSE IF exp.ok /\ ~r.ok THEN "valid image refused"
    ELSE IF ~exp.ok /\ r.ok THEN "image with errors accepted"
    ELSE IF exp.ok
    THEN (IF ~SameMeta(exp.meta, r.meta) THEN "metadata"
          ELSE IF Len(exp.ents) # Len(r.ents) THEN "number of messages"
          ELSE IF ~SameBag(Map(exp.ents, Meaning), Map(r.ents, Meaning)) THEN "messages"
          ELSE IF exp.be # r.be THEN "byte order"
          ELSE IF exp.rev # r.rev THEN "revision"
          ELSE "")
    ELSE IF exp.kind # r.kind THEN "kind of error"
    ELSE IF \E i \in 1..Len(exp.part) : exp.part[i] \notin WordsOf(r.why)
    THEN "part named by the error"
    ELSE ""

(***************************************************************************)
(* Images                                                                  *)
(***************************************************************************)
\* Regions: <<start, length>>
Overlap(x, y) == x[2] > 0 /\ y[2] > 0 /\ x[1] < y[1] + y[2] /\ y[1] < x[1] + x[2]
UpToNul(s) == Split(s, NUL)[1]

\* "" or what is wrong in an image as the catalog of a file
ImageDiff(b, f, be, rev) ==
    IF ~Has(b, 0, 28) THEN "header"
    ELSE IF Bytes4(b, 0) # MagicOf(be) THEN "magic number"
    ELSE IF Num(b, 4, be) # rev THEN "revision"
    ELSE
    LET n == Num(b, 8, be)
        kt == Num(b, 12, be)
        vt == Num(b, 16, be)
        hs == Num(b, 20, be)
        ht == Num(b, 24, be)
    IN IF n # Len(f.ents) + 1 THEN "number of strings"
       ELSE IF ~(Has(b, kt, 8 * n) /\ Has(b, vt, 8 * n)) THEN "tables out of the image"
       ELSE
       LET Row(t, i) == <<Num(b, t + 8 * (i - 1), be), Num(b, t + 8 * (i - 1) + 4, be)>>
           keys == [i \in 1..n |-> Row(kt, i)]
           vals == [i \in 1..n |-> Row(vt, i)]
           rows == keys \o vals
           Ended1(r) == Has(b, r[2], r[1] + 1) /\ b[r[2] + r[1] + 1] = 0
           regions == <<<<0, 28>>, <<kt, 8 * n>>, <<vt, 8 * n>>>>
                      \o Map(rows, LAMBDA r : <<r[2], r[1] + 1>>)
                      \o (IF hs > 0 THEN <<<<ht, 4 * hs>>>> ELSE <<>>)
           Bytes(r) == SubSeq(b, r[2] + 1, r[2] + r[1])
       IN IF \E i \in 1..Len(rows) : ~Ended1(rows[i]) THEN "string not ended inside of the image"
          ELSE IF hs > 0 /\ ~Has(b, ht, 4 * hs) THEN "hash table out of the image"
          ELSE IF \E i \in 1..Len(regions) : \E j \in 1..(i - 1) : Overlap(regions[i], regions[j])
          THEN "overlapping regions"
          ELSE IF Bytes(keys[1]) # <<>> THEN "the metadata is not the first"
          ELSE IF Bytes(vals[1]) \notin {Utf8(MetaText(f.meta)), Utf8(MetaText(f.meta)) \o <<LF>>}
          THEN "metadata"
          ELSE IF \E i \in 2..n : CmpText(UpToNul(Bytes(keys[i - 1])), UpToNul(Bytes(keys[i]))) > 0
          THEN "order of the keys"
          ELSE IF ~SameBag([i \in 1..(n - 1) |-> <<Bytes(keys[i + 1]), Bytes(vals[i + 1])>>],
                           Map(f.ents, LAMBDA m : <<Utf8(Key(m)), Utf8(Value(m))>>))
          THEN "keys and values"
          ELSE ""

(***************************************************************************)
(* Selection of messages of a PO file                                      *)
(***************************************************************************)
Translated(e) ==
    /\ ~e.obs /\ ~IsFuzzy(e)
    /\ IF e.pl = <<>> THEN OrEmpty(e.str) # <<>>
       ELSE e.strs # <<>> /\ \A i \in 1..Len(e.strs) : e.strs[i] # <<>>
Selected(ents) == SelectSeq(ents, Translated)
=============================================================================
