----------------------------- MODULE PoReader -----------------------------
(* The reader of PO documents, as a machine that takes one line at a time. *)
(* Lexing of a line (Lex) is separated of the grammar (Advance).           *)
EXTENDS Text

(***************************************************************************)
(* Messages and files                                                      *)
(***************************************************************************)
NewEntry(n) ==
    [ id |-> <<>>, str |-> <<>>, pl |-> <<>>, strs |-> <<>>, ctx |-> <<>>,
      obs |-> FALSE, com |-> <<>>, tcom |-> <<>>, occ |-> <<>>,
      flags |-> <<>>, pid |-> <<>>, ppl |-> <<>>, pctx |-> <<>>, line |-> n ]

FuzzyFlag == T("fuzzy")
IsFuzzy(e) == \E i \in 1..Len(e.flags) : e.flags[i] = FuzzyFlag

(***************************************************************************)
(* Lexing                                                                  *)
(***************************************************************************)
K_ctx == T("msgctxt")
K_id == T("msgid")
K_str == T("msgstr")
K_plural == T("msgid_plural")
K_strN == T("msgstr[")
M_ref == T("#:")
M_flag == T("#,")
M_com == T("#.")
M_tcom == T("#")
M_tcom2 == T("##")
M_prev == T("#|")
M_obs == T("#~")
M_obsprev == T("#~|")

Keywords == {K_ctx, K_id, K_str, K_plural}
KeywordClass(k) == CASE k = K_ctx -> "CT" [] k = K_id -> "MI"
                     [] k = K_str -> "MS" [] k = K_plural -> "MP"
PrevKeywords == {K_ctx, K_id, K_plural}
PrevClass(k) == CASE k = K_ctx -> "PC" [] k = K_id -> "PM" [] k = K_plural -> "PP"

MaxPluralIndex == 255

\* The outcome of lexing a line: its class (or "skip" or "err"), the text it
\* carries, whether it is marked as obsolete, the plural index, and for
\* errors their kind and column
Lexed(c, text, obs, idx) ==
    [class |-> c, text |-> text, obs |-> obs, idx |-> idx, kind |-> "", col |-> 0]
LexSkip == Lexed("skip", <<>>, FALSE, 0)
LexErr(kind, col) ==
    [class |-> "err", text |-> <<>>, obs |-> FALSE, idx |-> 0, kind |-> kind, col |-> col]

\* A class with a quoted text, whose quotes must be right.
\* `off` is the column of the opening quote
Quoted(c, text, obs, idx, off) ==
    IF Len(text) < 2 \/ Last1(text) # QUOTE THEN LexErr("unterminated", 0)
    ELSE IF text[1] # QUOTE THEN LexErr("unquoted", 0)
    ELSE LET inner == SubSeq(text, 2, Len(text) - 1)
             q == UnescapedQuote(inner)
         IN IF q # 0 THEN LexErr("quote", q + off)
            ELSE IF InsideEscape(inner, Len(inner)) THEN LexErr("unterminated", 0)
            ELSE Lexed(c, inner, obs, idx)

\* Without the "obs" column the line is `rest`, with its tokens `toks`
LexPlural(rest, obs) ==
    LET lb == IndexFrom(rest, LBRACKET, 1)
        rb == IndexFrom(rest, RBRACKET, lb + 1)
        raw == SubSeq(rest, lb + 1, IF rb = 0 THEN Len(rest) ELSE rb - 1)
        num == IF raw # <<>> /\ raw[1] = 43 THEN Tail(raw) ELSE raw
        text == IF rb = 0 THEN <<>> ELSE TrimStart(DropN(rest, rb))
    IN IF num = <<>> \/ \E i \in 1..Len(num) : ~IsDigit(num[i])
       THEN LexErr("index", 0)
       ELSE IF DigitsValue(num) > MaxPluralIndex THEN LexErr("index", 0)
       ELSE Quoted("MX", text, obs, DigitsValue(num), rb + 2)

LexPrevious(rest, toks, obs) ==
    IF Len(toks) < 2 THEN LexErr("previous", 0)
    ELSE LET prev == TrimStart(DropN(rest, 2))
         IN IF toks[2][1] = QUOTE THEN Quoted("MC", prev, obs, 0, 4)
            ELSE IF Len(toks) = 2 THEN LexErr("previous", 0)
            ELSE IF toks[2] \notin PrevKeywords THEN LexErr("previous", 0)
            ELSE Quoted(PrevClass(toks[2]), TrimStart(DropN(prev, Len(toks[2]))),
                        obs, 0, Len(toks[2]) + 5)

LexRest(rest, toks, obs) ==
    IF Len(toks) > 1 /\ toks[1] \in Keywords
    THEN Quoted(KeywordClass(toks[1]), TrimStart(DropN(rest, Len(toks[1]))),
                obs, 0, Len(toks[1]) + 2)
    ELSE IF toks[1] = M_ref
    THEN (IF Len(toks) = 1 THEN LexSkip ELSE Lexed("OC", DropN(rest, 3), obs, 0))
    ELSE IF rest[1] = QUOTE THEN Quoted("MC", rest, obs, 0, 1)
    ELSE IF StartsWith(rest, K_strN) THEN LexPlural(rest, obs)
    ELSE IF toks[1] = M_flag
    THEN (IF Len(toks) = 1 THEN LexSkip ELSE Lexed("FL", DropN(rest, 3), obs, 0))
    ELSE IF toks[1] = M_tcom \/ StartsWith(toks[1], M_tcom2)
    THEN Lexed("TC", rest, obs, 0)
    ELSE IF toks[1] = M_com
    THEN (IF Len(toks) = 1 THEN LexSkip ELSE Lexed("GC", DropN(rest, 3), obs, 0))
    ELSE IF toks[1] = M_prev THEN LexPrevious(rest, toks, obs)
    ELSE LexErr("unknown", 0)

Lex(rawline) ==
    LET line == Trim(rawline)
        toks == Tokens(line, 3)
    IN IF toks = <<>> THEN LexSkip
       ELSE IF toks[1] = M_obsprev THEN LexSkip
       ELSE IF Len(toks) > 1 /\ toks[1] = M_obs
       THEN LexRest(Trim(DropN(line, 3)), Tail(toks), TRUE)
       ELSE LexRest(line, toks, FALSE)

(***************************************************************************)
(* Grammar                                                                 *)
(***************************************************************************)
States == {"ST", "HE", "TC", "GC", "OC", "FL", "CT", "PC", "PM", "PP",
           "MI", "MP", "MS", "MX"}
AnyState == States
\* The lines that can precede a line of each class
Allowed ==
    [ TC |-> States \ {"CT"},
      GC |-> AnyState, OC |-> AnyState, FL |-> AnyState,
      PC |-> AnyState, PM |-> AnyState, PP |-> AnyState,
      CT |-> States \ {"CT", "MI", "MP"},
      MI |-> States \ {"MI", "MP"},
      MP |-> {"TC", "GC", "PC", "PM", "PP", "MI"},
      MS |-> {"MI", "MP", "TC"},
      MX |-> {"MI", "MP", "TC", "MX"},
      MC |-> {"CT", "MI", "MP", "MS", "MX", "PC", "PM", "PP"} ]

InitReader == [ st |-> "ST", n |-> 0, hdr |-> <<>>, ents |-> <<>>,
                cur |-> NewEntry(0), idx |-> 0, idread |-> FALSE,
                err |-> <<>> ]

Ended(ps) == ps.st \in {"MS", "MX"}

\* A message has one msgid, before it at most one msgctxt, and after it at
\* most one msgid_plural and its translations
InOrder(ps, class) ==
    CASE class = "CT" -> Ended(ps) \/ (~ps.idread /\ ps.cur.ctx = <<>>)
      [] class = "MI" -> Ended(ps) \/ ~ps.idread
      [] class = "MP" -> ps.idread /\ ps.cur.pl = <<>>
      [] class \in {"MS", "MX"} -> ps.idread
      [] OTHER -> TRUE

Fail(ps, kind, line, col) ==
    [ps EXCEPT !.err = <<[kind |-> kind, line |-> line, col |-> col]>>]

\* The message with its strings unescaped, <<>> if some of them can not be
UnescOpt(o) == IF o = <<>> THEN <<>> ELSE <<Unescape(o[1])>>
UnescapedEntry(e) ==
    LET id == Unescape(e.id)
        str == UnescOpt(e.str)
        pl == UnescOpt(e.pl)
        ctx == UnescOpt(e.ctx)
        pid == UnescOpt(e.pid)
        ppl == UnescOpt(e.ppl)
        pctx == UnescOpt(e.pctx)
        strs == Map(e.strs, Unescape)
        Ok(o) == o = <<>> \/ o[1].kind = "ok"
        Val(o) == IF o = <<>> THEN <<>> ELSE <<o[1].text>>
    IN IF /\ id.kind = "ok" /\ Ok(str) /\ Ok(pl) /\ Ok(ctx) /\ Ok(pid)
          /\ Ok(ppl) /\ Ok(pctx) /\ \A i \in 1..Len(strs) : strs[i].kind = "ok"
       THEN <<[e EXCEPT !.id = id.text, !.str = Val(str), !.pl = Val(pl),
                        !.ctx = Val(ctx), !.pid = Val(pid), !.ppl = Val(ppl),
                        !.pctx = Val(pctx),
                        !.strs = [i \in 1..Len(strs) |-> strs[i].text]]>>
       ELSE <<>>

Flush(ps) ==
    LET u == UnescapedEntry(ps.cur)
    IN IF u = <<>> THEN Fail(ps, "escape", 0, 0)
       ELSE [ps EXCEPT !.ents = Append(@, u[1]), !.cur = NewEntry(ps.n),
                       !.idx = 0, !.idread = FALSE]

Appended(o, text) == IF o = <<>> THEN <<text>> ELSE <<o[1] \o <<LF>> \o text>>

RECURSIVE StripHashes(_)
StripHashes(s) == IF s # <<>> /\ s[1] = HASH THEN StripHashes(Tail(s)) ELSE s
CommentText(line) ==
    LET s == StripHashes(line)
    IN IF s # <<>> /\ s[1] = SP THEN Tail(s) ELSE s

Reference(w) ==
    LET c == IndexFrom(w, COLON, 1)
    IN IF c = 0 THEN <<w, <<>>>>
       ELSE IF \A i \in (c + 1)..Len(w) : IsDigit(w[i])
       THEN <<SubSeq(w, 1, c - 1), SubSeq(w, c + 1, Len(w))>>
       ELSE <<w, <<>>>>

PadTo(strs, n) == [i \in 1..(IF Len(strs) < n THEN n ELSE Len(strs)) |->
                     IF i <= Len(strs) THEN strs[i] ELSE <<>>]

\* A line in the message under construction
Field(ps, lx) ==
    LET e == ps.cur
        c == lx.class
    IN CASE c = "TC" -> [ps EXCEPT !.cur.tcom = Appended(@, CommentText(lx.text))]
         [] c = "GC" -> [ps EXCEPT !.cur.com = Appended(@, lx.text)]
         [] c = "OC" -> [ps EXCEPT !.cur.occ = @ \o Map(Words(lx.text), Reference)]
         [] c = "FL" -> [ps EXCEPT !.cur.flags = @ \o Map(Split(lx.text, COMMA), Trim)]
         [] c = "PC" -> [ps EXCEPT !.cur.pctx = <<lx.text>>]
         [] c = "PM" -> [ps EXCEPT !.cur.pid = <<lx.text>>]
         [] c = "PP" -> [ps EXCEPT !.cur.ppl = <<lx.text>>]
         [] c = "CT" -> [ps EXCEPT !.cur.ctx = <<lx.text>>]
         [] c = "MI" -> [ps EXCEPT !.cur.id = lx.text, !.cur.obs = lx.obs, !.idread = TRUE]
         [] c = "MP" -> [ps EXCEPT !.cur.pl = <<lx.text>>]
         [] c = "MS" -> [ps EXCEPT !.cur.str = <<lx.text>>]
         [] c = "MX" -> [ps EXCEPT !.cur.strs = [PadTo(@, lx.idx + 1) EXCEPT ![lx.idx + 1] = lx.text],
                                   !.idx = lx.idx]

\* A continuation line extends the string of the last keyword
Continue(ps, text) ==
    LET Ext(o) == <<o[1] \o text>>
    IN CASE ps.st = "MI" -> [ps EXCEPT !.cur.id = @ \o text]
         [] ps.st = "MS" -> [ps EXCEPT !.cur.str = Ext(@)]
         [] ps.st = "CT" -> [ps EXCEPT !.cur.ctx = Ext(@)]
         [] ps.st = "MP" -> [ps EXCEPT !.cur.pl = Ext(@)]
         [] ps.st = "MX" -> [ps EXCEPT !.cur.strs[ps.idx + 1] = @ \o text]
         [] ps.st = "PP" -> [ps EXCEPT !.cur.ppl = Ext(@)]
         [] ps.st = "PM" -> [ps EXCEPT !.cur.pid = Ext(@)]
         [] ps.st = "PC" -> [ps EXCEPT !.cur.pctx = Ext(@)]

Begins == {"TC", "GC", "OC", "FL", "PC", "PM", "PP", "CT", "MI"}

Advance(ps, lx) ==
    LET c == lx.class
    IN IF c = "skip" THEN ps
       ELSE IF c = "err" THEN Fail(ps, lx.kind, ps.n, lx.col)
       ELSE IF ~(ps.st \in Allowed[c] /\ InOrder(ps, c)) THEN Fail(ps, "order", ps.n, 0)
       ELSE IF c = "TC" /\ ps.st \in {"ST", "HE"}
       THEN [ps EXCEPT !.hdr = Appended(@, DropN(lx.text, 2)), !.st = "HE"]
       ELSE IF c = "MC" THEN Continue(ps, lx.text)
       ELSE LET p == IF c \in Begins /\ Ended(ps) THEN Flush(ps) ELSE ps
            IN IF p.err # <<>> THEN p ELSE [Field(p, lx) EXCEPT !.st = c]

\* One line of the document (byte-order marks are stripped of the first one)
RECURSIVE StripBoms(_)
StripBoms(s) == IF s # <<>> /\ s[1] = BOM THEN StripBoms(Tail(s)) ELSE s
ReadLine(ps, rawline) ==
    LET line == IF ps.n = 0 THEN StripBoms(rawline) ELSE rawline
    IN Advance([ps EXCEPT !.n = @ + 1], Lex(line))

\* The same for a line as bytes, that could be not decodable
ReadRawLine(ps, raw) ==
    LET d == Decode(raw)
    IN IF d[1] THEN ReadLine(ps, d[2])
       ELSE LET n == ps.n + 1 IN Fail([ps EXCEPT !.n = n], "decode", n, 0)

(***************************************************************************)
(* End of the document                                                     *)
(***************************************************************************)
\* The metadata pairs of a header entry: a repeated name appends its value
SplitPair(line) ==
    LET Sep(i) == line[i] = COLON /\ i < Len(line) /\ line[i + 1] = SP
        cand == { i \in 1..Len(line) : Sep(i) }
    IN IF cand = {} THEN <<>>
       ELSE LET i == CHOOSE x \in cand : \A y \in cand : x <= y
            IN << <<SubSeq(line, 1, i - 1), Trim(DropN(line, i + 1))>> >>
AddPair(m, p) ==
    LET at == { i \in 1..Len(m) : m[i][1] = p[1] }
    IN IF at = {} THEN Append(m, p)
       ELSE LET i == CHOOSE x \in at : TRUE IN [m EXCEPT ![i][2] = @ \o p[2]]
MetadataOf(msgstr) ==
    FoldLeft(LAMBDA m, line : LET p == SplitPair(line)
                              IN IF p = <<>> THEN m ELSE AddPair(m, p[1]),
             <<>>, Split(msgstr, LF))

FileOf(hdr, meta, fuzzy, ents) ==
    [ok |-> TRUE, hdr |-> hdr, meta |-> meta, fuzzy |-> fuzzy, ents |-> ents]
ErrorOf(e) == [ok |-> FALSE, kind |-> e.kind, line |-> e.line, col |-> e.col]

\* The entry with the metadata has no msgid and no context
IsHeader(e) == e.id = <<>> /\ e.ctx = <<>>

\* Comments after the last message are not a message
EndOfFile(ps) ==
    IF ps.err # <<>> THEN ErrorOf(ps.err[1])
    ELSE LET p == IF ps.idread THEN Flush(ps) ELSE ps
             heads == { i \in 1..Len(p.ents) : IsHeader(p.ents[i]) }
         IN IF p.err # <<>> THEN ErrorOf(p.err[1])
            ELSE IF heads = {} THEN FileOf(p.hdr, <<>>, FALSE, p.ents)
            ELSE LET h == p.ents[CHOOSE i \in heads : \A j \in heads : i <= j]
                 IN FileOf(p.hdr, MetadataOf(OrEmpty(h.str)), IsFuzzy(h),
                           SelectSeq(p.ents, LAMBDA e : e # h))

Parse(doc) ==
    EndOfFile(FoldLeft(LAMBDA ps, l : IF ps.err # <<>> THEN ps ELSE ReadLine(ps, l),
                       InitReader, DocLines(doc)))

(***************************************************************************)
(* Comparison of an outcome of the machine with an observed one            *)
(***************************************************************************)
Range1(s) == { s[i] : i \in 1..Len(s) }
SameMeta(a, b) == Len(a) = Len(b) /\ Range1(a) = Range1(b)

\* "" when they agree, otherwise what is different
OutcomeDiff(exp, out) ==
    IF ~out.ok /\ out.kind = "panic" THEN "panic"
    ELSE IF exp.ok /\ ~out.ok THEN "well-formed document rejected"
    ELSE IF ~exp.ok /\ out.ok THEN "malformed document accepted"
    ELSE IF exp.ok
    THEN (IF exp.hdr # out.hdr THEN "header"
          ELSE IF exp.fuzzy # out.fuzzy THEN "fuzzy mark"
          ELSE IF ~SameMeta(exp.meta, out.meta) THEN "metadata"
          ELSE IF Len(exp.ents) # Len(out.ents) THEN "number of messages"
          ELSE IF exp.ents # out.ents THEN "messages"
          ELSE "")
    ELSE IF ~out.named THEN "file of the error"
    \* errors of escapes have no line
    ELSE IF exp.kind = "escape" THEN ""
    ELSE IF exp.line # out.line THEN "line of the error"
    ELSE IF exp.kind = "quote" /\ (out.kind # "quote" \/ exp.col # out.col)
    THEN "column of the error"
    ELSE ""
============================================================================
