----------------------------- MODULE MCReader -----------------------------
(* Bounded exploration of the reader: all the documents made of up to      *)
(* MaxLen lines of a set of line templates. In each template the character *)
(* ? stands for a letter of the position of the line, so the texts of all  *)
(* the lines of a document are different and a text that ends up in other  *)
(* place is noticed.  Every document is printed with the outcome that the  *)
(* machine gives to it, to be replayed in the implementation.              *)
EXTENDS PoReader, Json

CONSTANTS MaxLen,    \* maximum number of lines
          Emit,      \* whether documents are printed
          Kinds,     \* sets of templates used
          Clean      \* whether malformed documents are left out (but printed)

WellFormed == <<
    "# t?", "#", "#. g?", "#: r?:1 r?", "#, f?", "#, fuzzy",
    "#| msgctxt \"w?\"", "#| msgid \"m?\"", "#| msgid_plural \"n?\"", "#| \"b?\"",
    "msgctxt \"c?\"", "msgid \"i?\"", "msgid_plural \"p?\"", "msgstr \"s?\"",
    "msgstr[0] \"x?\"", "msgstr[1] \"y?\"", "\"k?\"",
    "#~ msgctxt \"d?\"", "#~ msgid \"o?\"", "#~ msgstr \"q?\"", "#~ \"l?\"",
    "", "msgid \"\"", "msgstr \"\"", "#~| msgid \"z?\"", "msgid \"\\\"?\\n\"" >>

Malformed == <<
    "garbage?", "msgid \"?\"b\"", "msgstr \"?", "msgstr ?\"", "msgid ?", "msgstr[x] \"?\"",
    "msgstr[] \"?\"", "msgstr[999] \"?\"", "msgstr[0] \"?", "#| msgid", "#|", "#| msgstr \"?\"",
    "#| msgid \"?\" \"", "msgfoo \"?\"", "\"?", "\"?\\\"", "msgid \"\\q?\"", "#~ foo \"?\"",
    "msgid" >>

\* A small set that allows longer documents
Core == <<
    "# t?", "#: r?:1", "#, fuzzy", "#| msgid \"m?\"", "msgctxt \"c?\"", "msgid \"i?\"",
    "msgid_plural \"p?\"", "msgstr \"s?\"", "msgstr[0] \"x?\"", "msgstr[1] \"y?\"", "\"k?\"",
    "#~ msgid \"o?\"" >>

Lines == (IF "wf" \in Kinds THEN Map(WellFormed, T) ELSE <<>>)
         \o (IF "mf" \in Kinds THEN Map(Malformed, T) ELSE <<>>)
         \o (IF "core" \in Kinds THEN Map(Core, T) ELSE <<>>)

QUESTION == 63
LineAt(t, n) == Map(Lines[t], LAMBDA c : IF c = QUESTION THEN 96 + n ELSE c)

VARIABLES doc,   \* indexes of the templates of the lines read
          rdr     \* state of the reader
vars == <<doc, rdr>>

Out(d, p) == [d |-> Concat(Map([i \in 1..Len(d) |-> LineAt(d[i], i)],
                               LAMBDA l : Append(l, LF))),
              r |-> EndOfFile(p)]

Init == doc = <<>> /\ rdr = InitReader
Next == /\ rdr.err = <<>>
        /\ Len(doc) < MaxLen
        /\ \E t \in 1..Len(Lines) :
             /\ doc' = Append(doc, t)
             /\ rdr' = ReadLine(rdr, LineAt(t, Len(doc) + 1))
             /\ Emit => PrintT(ToJson(Out(doc', rdr')))
             /\ Clean => rdr'.err = <<>>
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Independent formulation: which lines make each message                  *)
(***************************************************************************)
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
Ascending(s) == SortBy(SetToSeq(s), CmpInt)

\* The header and the messages of a document given its lexed lines
Grouped(lx) ==
    LET N == Len(lx)
        significant == { i \in 1..N : lx[i].class # "skip" }
        main == { i \in significant : lx[i].class # "MC" }
        \* the last keyword or comment line before each line
        last == [i \in 1..N |-> LET m == { j \in main : j < i }
                                IN IF m = {} THEN 0 ELSE MaxOf(m)]
        header == { i \in significant : /\ lx[i].class = "TC"
                                        /\ \A j \in significant : j < i => lx[j].class = "TC" }
        body == significant \ header
        starts == { i \in body : /\ lx[i].class \in Begins
                                 /\ last[i] # 0
                                 /\ lx[last[i]].class \in {"MS", "MX"} }
        \* number of the message each line belongs to
        msgof == [i \in 1..N |-> 1 + Cardinality({ j \in starts : j <= i })]
        nb == Cardinality({ msgof[i] : i \in body })
        Comments(g, c, F(_)) ==
            LET m == { i \in g : lx[i].class = c }
            IN IF m = {} THEN <<>>
               ELSE <<Join(Map(Ascending(m), LAMBDA j : F(lx[j].text)), <<LF>>)>>
        Lists(g, c, F(_)) ==
            Concat(Map(Ascending({ i \in g : lx[i].class = c }), LAMBDA j : F(lx[j].text)))
        \* a keyword line with its continuation lines
        Whole(g, i) ==
            Unescape(Concat(Map(Ascending({i} \cup { j \in g : lx[j].class = "MC" /\ last[j] = i }),
                                LAMBDA j : lx[j].text))).text
        Str(g, c) ==
            LET m == { i \in g : lx[i].class = c }
            IN IF m = {} THEN <<>> ELSE <<Whole(g, MaxOf(m))>>
        Plurals(g) ==
            LET m == { i \in g : lx[i].class = "MX" }
            IN IF m = {} THEN <<>>
               ELSE [k \in 1..(1 + MaxOf({ lx[i].idx : i \in m })) |->
                       LET here == { i \in m : lx[i].idx = k - 1 }
                       IN IF here = {} THEN <<>> ELSE Whole(g, MaxOf(here))]
        Message(k) ==
            LET g == { i \in body : msgof[i] = k }
            IN [ id |-> OrEmpty(Str(g, "MI")), str |-> Str(g, "MS"),
                 pl |-> Str(g, "MP"), strs |-> Plurals(g), ctx |-> Str(g, "CT"),
                 obs |-> \E i \in g : lx[i].class = "MI" /\ lx[i].obs,
                 com |-> Comments(g, "GC", LAMBDA x : x),
                 tcom |-> Comments(g, "TC", CommentText),
                 occ |-> Lists(g, "OC", LAMBDA x : Map(Words(x), Reference)),
                 flags |-> Lists(g, "FL", LAMBDA x : Map(Split(x, COMMA), Trim)),
                 pid |-> Str(g, "PM"), ppl |-> Str(g, "PP"), pctx |-> Str(g, "PC"),
                 line |-> IF k = 1 THEN 0 ELSE MinOf(g) ]
        all == [k \in 1..nb |-> Message(k)]
        \* the last group can have comments only
        kept == IF nb = 0 \/ \E i \in body : msgof[i] = nb /\ lx[i].class = "MI" THEN all
                ELSE SubSeq(all, 1, nb - 1)
    IN [ hdr |-> Comments(header, "TC", LAMBDA x : DropN(x, 2)), msgs |-> kept ]

\* The file read is the one that the grouping of lines describes
GroupingAgrees ==
    LET r == EndOfFile(rdr)
        g == Grouped([i \in 1..Len(doc) |-> Lex(LineAt(doc[i], i))])
        heads == { i \in 1..Len(g.msgs) : g.msgs[i].id = <<>> /\ g.msgs[i].ctx = <<>> }
    IN r.ok =>
        /\ r.hdr = g.hdr
        /\ r.ents = IF heads = {} THEN g.msgs
                    ELSE SubSeq(g.msgs, 1, MinOf(heads) - 1)
                         \o SubSeq(g.msgs, MinOf(heads) + 1, Len(g.msgs))

\* A rejected document names its first malformed line, the last one read
ErrorsName == (rdr.err # <<>> /\ rdr.err[1].kind # "escape") => rdr.err[1].line = Len(doc)
\* Lines are counted even when they are skipped
Counts == rdr.n = Len(doc)
TypeOK == rdr.st \in States /\ rdr.cur.line <= rdr.n
============================================================================
