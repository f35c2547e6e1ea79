----------------------------- MODULE PoRender -----------------------------
(* The writer of PO text. A file is a list of items (Items), each of them  *)
(* written in one or more lines; Takes says which lines can come next, so  *)
(* the writer is a machine that takes one written line at a time. How wide *)
(* a text is, and where Unicode allows to break it, are data of the        *)
(* environment: an `info` for each text.                                   *)
(*   info: [t |-> text, w |-> width of the text, brk |-> positions where a *)
(*          break is allowed, upto |-> widths of the text up to each       *)
(*          position, the sum of the ones of its characters]               *)
(* and it is completed once (Known) with whether the text is plain.        *)
EXTENDS PoReader, Natural

Fixed(line) == [t |-> "fixed", pre |-> <<>>, kw |-> <<>>, idx |-> <<>>, text |-> line, words |-> <<>>]
StrItem(pre, kw, idx, value) ==
    [t |-> "str", pre |-> pre, kw |-> kw, idx |-> idx, text |-> Escape(value), words |-> <<>>]
ComItem(pre, line) ==
    [t |-> "com", pre |-> pre, kw |-> <<>>, idx |-> <<>>, text |-> line, words |-> <<>>]
RefItem(words) ==
    [t |-> "refs", pre |-> <<>>, kw |-> <<>>, idx |-> <<>>, text |-> <<>>, words |-> words]

P_tcom == T("# ")
P_com == T("#. ")
P_prev == T("#| ")
P_obsprev == T("#~| ")
P_obs == T("#~ ")
P_ref == T("#: ")
P_flag == T("#, ")

OptItems(o, F(_)) == IF o = <<>> THEN <<>> ELSE <<F(o[1])>>
ComItems(o, pre) ==
    IF o = <<>> THEN <<>> ELSE Map(Split(o[1], LF), LAMBDA l : ComItem(pre, l))
Index(i) == <<LBRACKET>> \o Digits(i) \o <<RBRACKET>>

\* Fields that PO and MO messages have in common
MessageItems(e, pre) ==
    OptItems(e.ctx, LAMBDA x : StrItem(pre, K_ctx, <<>>, x))
    \o <<StrItem(pre, K_id, <<>>, e.id)>>
    \o OptItems(e.pl, LAMBDA x : StrItem(pre, K_plural, <<>>, x))
    \o (IF e.strs = <<>> THEN <<StrItem(pre, K_str, <<>>, OrEmpty(e.str))>>
        ELSE [i \in 1..Len(e.strs) |-> StrItem(pre, K_str, Index(i - 1), e.strs[i])])

Word(r) == IF r[2] = <<>> THEN r[1] ELSE r[1] \o <<COLON>> \o r[2]

EntryItems(e) ==
    LET prev == IF e.obs THEN P_obsprev ELSE P_prev
    IN ComItems(e.tcom, P_tcom)
       \o ComItems(e.com, P_com)
       \o (IF e.obs \/ e.occ = <<>> THEN <<>> ELSE <<RefItem(Map(e.occ, Word))>>)
       \o (IF e.flags = <<>> THEN <<>>
           ELSE <<Fixed(P_flag \o Join(e.flags, <<COMMA, SP>>))>>)
       \o OptItems(e.pctx, LAMBDA x : StrItem(prev, K_ctx, <<>>, x))
       \o OptItems(e.pid, LAMBDA x : StrItem(prev, K_id, <<>>, x))
       \o OptItems(e.ppl, LAMBDA x : StrItem(prev, K_plural, <<>>, x))
       \o MessageItems(e, IF e.obs THEN P_obs ELSE <<>>)

\* Lines of a header: the last line has no end
HeaderLines(h) ==
    IF h = <<>> \/ h[1] = <<>> THEN << <<>> >>
    ELSE LET p == Split(h[1], LF)
             q == IF p[Len(p)] = <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE p
         IN Map(q, StripCr)
HeaderItems(h) ==
    Map(HeaderLines(h), LAMBDA l : Fixed(IF l = <<>> THEN M_tcom ELSE P_tcom \o l))

Quote1(s) == <<QUOTE>> \o s \o <<QUOTE>>
NewlineEscape == T("\\n")
MetaLine(p) == Quote1(Escape(p[1] \o T(": ") \o p[2]) \o NewlineEscape)
MetaItems(meta, fuzzy) ==
    (IF fuzzy THEN <<Fixed(T("#, fuzzy"))>> ELSE <<>>)
    \o <<Fixed(T("msgid \"\"")), Fixed(T("msgstr \"\""))>>
    \o Map(OrderedMeta(meta), LAMBDA p : Fixed(MetaLine(p)))

Active(ents) == SelectSeq(ents, LAMBDA e : ~e.obs)
Obsolete(ents) == SelectSeq(ents, LAMBDA e : e.obs)

Blank == Fixed(<<>>)
FileItems(f) ==
    HeaderItems(f.hdr) \o MetaItems(f.meta, f.fuzzy)
    \o Concat(Map(Active(f.ents) \o Obsolete(f.ents),
                  LAMBDA e : <<Blank>> \o EntryItems(e)))
MoFileItems(f) ==
    <<Fixed(M_tcom)>> \o MetaItems(f.meta, FALSE)
    \o Concat(Map(f.ents, LAMBDA e : <<Blank>> \o MessageItems(e, <<>>)))

(***************************************************************************)
(* Lines that an item can be written in                                    *)
(***************************************************************************)
IsPrintable(s) == \A i \in 1..Len(s) : s[i] >= 32 /\ ~(s[i] \in 127..159)
\* Texts where the columns of each character are known: those of control
\* characters are not, nor those of characters that join others
Known(info) == [t |-> info.t, w |-> info.w, upto |-> info.upto,
                plain |-> IsPrintable(info.t) /\ info.w = info.upto[Len(info.t) + 1],
                brk |-> { info.brk[i] : i \in 1..Len(info.brk) }]

Width(info, a, b) == info.upto[b + 1] - info.upto[a + 1]
BreakAt(info, p) == p \in info.brk /\ ~InsideEscape(info.t, p)

\* The piece from a (not included) to b is not too wide for the width w
NarrowEnough(info, a, b, w) ==
    \/ Width(info, a, b) <= w
    \/ ~(\E p \in (a + 1)..(b - 1) : BreakAt(info, p))
\* What follows up to the next break would not fit, with a column more (two
\* after a wide character). Only some of what follows is looked at
Filled(info, a, b, w) ==
    LET n == Len(info.t)
        more == IF b > 0 /\ Width(info, b - 1, b) > 1 THEN 2 ELSE 1
        end == b + 2 * w
    IN b >= n \/ \A p \in (b + 1)..(IF n < end THEN n ELSE end) :
                   Width(info, a, p) + more <= w => (p # n /\ ~BreakAt(info, p))

\* The keyword, a space and the string
Fits(item, info, w) == info.w + Len(item.kw) + 1 <= w
ComFits(info, w) == info.w + 2 <= w
ComWidth(w) == IF w < 2 THEN 0 ELSE w - 2

AllWs(s, a) == \A i \in (a + 1)..Len(s) : IsWs(s[i])

Done == -2
\* Positions of the text of the item reached after writing the line: a set,
\* empty when the line can not come next. `off` is -1 for the first line.
TakesStr(item, info, off, line, w) ==
    LET n == Len(item.text)
    IN IF off = -1
       THEN (IF Fits(item, info, w)
             THEN (IF line = item.pre \o item.kw \o item.idx \o <<SP>> \o Quote1(item.text)
                   THEN {Done} ELSE {})
             ELSE (IF line = item.pre \o item.kw \o item.idx \o <<SP, QUOTE, QUOTE>>
                   THEN {0} ELSE {}))
       ELSE LET k == Len(line) - Len(item.pre) - 2
                b == off + k
            IN IF /\ k >= 0 /\ b <= n /\ (k > 0 \/ n = 0)
                  /\ line = item.pre \o Quote1(SubSeq(item.text, off + 1, b))
                  /\ b = n \/ BreakAt(info, b)
                  /\ NarrowEnough(info, off, b, w)
                  /\ info.plain => Filled(info, off, b, w)
               THEN (IF b = n THEN {Done} ELSE {b})
               ELSE {}

\* White space at the breaks of a comment is not written
TakesCom(item, info, off, line, w) ==
    LET n == Len(item.text)
        cw == ComWidth(w)
    IN IF ComFits(info, w) THEN (IF line = item.pre \o item.text THEN {Done} ELSE {})
       ELSE IF AllWs(item.text, 0) THEN (IF line = item.pre THEN {Done} ELSE {})
       ELSE IF ~StartsWith(line, item.pre) THEN {}
       ELSE LET p == DropN(line, Len(item.pre))
                a == IF off = -1 THEN 0 ELSE off
                \* pieces of white space only are not written
                starts == { s \in a..(SkipWs(item.text, a + 1) - 1) : s = a \/ BreakAt(info, s) }
                \* the line, and the white space that is not written
                Good(s) ==
                    LET e == s + Len(p)
                        same == /\ p # <<>> /\ ~IsWs(Last1(p)) /\ e <= n
                                /\ SubSeq(item.text, s + 1, e) = p
                                /\ NarrowEnough(info, s, e, cw)
                    IN { b \in e..(IF same THEN SkipWs(item.text, e + 1) - 1 ELSE e - 1) :
                           /\ b = n \/ BreakAt(info, b)
                           /\ info.plain => Filled(info, s, b, cw) }
                good == UNION { Good(s) : s \in starts }
            IN { IF AllWs(item.text, b) THEN Done ELSE b : b \in good }

\* References fill their lines. Here the position is the number of them
\* already written, and `info.cw` has their widths
RECURSIVE RefsEnd(_, _, _, _)
RefsEnd(cw, i, width, w) ==
    IF i <= Len(cw) /\ width + 1 + cw[i] <= w THEN RefsEnd(cw, i + 1, width + 1 + cw[i], w)
    ELSE i - 1
TakesRefs(item, cw, off, line, w) ==
    LET a == IF off = -1 THEN 0 ELSE off
        fit == RefsEnd(cw, a + 1, 2, w)
        b == IF fit <= a THEN a + 1 ELSE fit
    IN IF line = P_ref \o Join(SubSeq(item.words, a + 1, b), <<SP>>)
       THEN {IF b = Len(item.words) THEN Done ELSE b} ELSE {}

\* Infos are looked up in a table
Info(tab, text) == tab[CHOOSE i \in 1..Len(tab) : tab[i].t = text]
\* What has to be known to write an item: an info, or the widths of the words
Facts(item, tab) ==
    CASE item.t = "fixed" -> <<>>
      [] item.t = "refs" -> Map(item.words, LAMBDA x : Info(tab, x).w)
      [] OTHER -> Known(Info(tab, item.text))

Takes(item, facts, offs, line, w) ==
    CASE item.t = "fixed" -> IF line = item.text THEN {Done} ELSE {}
      [] item.t = "str" -> UNION { TakesStr(item, facts, o, line, w) : o \in offs }
      [] item.t = "com" -> UNION { TakesCom(item, facts, o, line, w) : o \in offs }
      [] item.t = "refs" -> UNION { TakesRefs(item, facts, o, line, w) : o \in offs }

\* Texts whose infos are needed
ItemTexts(item) == IF item.t = "fixed" THEN <<>>
                   ELSE IF item.t = "refs" THEN item.words ELSE <<item.text>>

(***************************************************************************)
(* What a written file gives when it is read                               *)
(***************************************************************************)
CommentLines(o) == IF o = <<>> THEN <<>> ELSE Map(Split(o[1], LF), TrimEnd)
ReloadedEntry(e) ==
    LET gc == SelectSeq(CommentLines(e.com), LAMBDA l : l # <<>>)
    IN [e EXCEPT !.line = 0,
                 !.str = IF e.strs = <<>> THEN <<OrEmpty(e.str)>> ELSE <<>>,
                 !.com = IF gc = <<>> THEN <<>> ELSE <<Join(gc, <<LF>>)>>,
                 !.tcom = IF @ = <<>> THEN <<>> ELSE <<Join(CommentLines(@), <<LF>>)>>,
                 !.occ = IF e.obs THEN <<>> ELSE @,
                 !.pid = IF e.obs THEN <<>> ELSE @,
                 !.ppl = IF e.obs THEN <<>> ELSE @,
                 !.pctx = IF e.obs THEN <<>> ELSE @]
Reloaded(f) ==
    [ ok |-> TRUE, hdr |-> <<Join(Map(HeaderLines(f.hdr), TrimEnd), <<LF>>)>>,
      meta |-> f.meta, fuzzy |-> f.fuzzy,
      ents |-> Map(Active(f.ents) \o Obsolete(f.ents), ReloadedEntry) ]

\* Comments that have lines wider than the wrap width can be broken again
NotWs(s) == SelectSeq(s, LAMBDA c : ~IsWs(c))
SameComment(a, b, long) ==
    IF long THEN NotWs(OrEmpty(a)) = NotWs(OrEmpty(b)) ELSE a = b
SameEntry(a, b, long) ==
    /\ [a EXCEPT !.com = <<>>, !.tcom = <<>>, !.line = 0]
       = [b EXCEPT !.com = <<>>, !.tcom = <<>>, !.line = 0]
    /\ SameComment(a.com, b.com, long)
    /\ SameComment(a.tcom, b.tcom, long)
\* "" or what was lost. `long` has for each message of the file (in the
\* order of the text) if some line of its comments is wider than the width
ReloadDiff(exp, r, long) ==
    IF ~r.ok THEN (IF r.kind = "panic" THEN "panic" ELSE "the text is not accepted")
    ELSE IF exp.hdr # r.hdr THEN "header"
    ELSE IF ~SameMeta(exp.meta, r.meta) THEN "metadata"
    ELSE IF exp.fuzzy # r.fuzzy THEN "fuzzy mark"
    ELSE IF Len(exp.ents) # Len(r.ents) THEN "number of messages"
    ELSE IF \E i \in 1..Len(exp.ents) : ~SameEntry(exp.ents[i], r.ents[i], long[i])
    THEN "messages"
    ELSE ""

\* Whether everything in the file is kept by writing and reading it
NoBlankEnd(o) == o = <<>> \/ LET ls == Split(o[1], LF) IN ls = Map(ls, TrimEnd)
Kept(f) ==
    /\ f.hdr # <<>> => LET ls == HeaderLines(f.hdr) IN ls = Map(ls, TrimEnd)
    /\ \A i \in 1..Len(f.ents) :
         LET e == f.ents[i]
         IN /\ NoBlankEnd(e.com) /\ NoBlankEnd(e.tcom)
            /\ LET ls == CommentLines(e.com) IN \A j \in 1..Len(ls) : ls[j] # <<>>
            /\ e.obs => (e.pid = <<>> /\ e.ppl = <<>> /\ e.pctx = <<>>)
============================================================================
