------------------------------- MODULE Scale -------------------------------
(* Documents of any size and the files they hold, in closed form. The size *)
(* is a record of numbers, so what the reader gives to small sizes can be  *)
(* compared with the closed form (MCScale), that is then used for sizes    *)
(* the machine would take too long to read.                                *)
EXTENDS PoReader

\* A size: numbers of messages, of repetitions of the unit in each text, of
\* lines each text is split in, of references, flags, comment lines, plural
\* forms (0: not plural), names of metadata, lines of the header and blank
\* lines before the messages, and the number of the unit of texts
Sizes(msgs, reps, lines, refs, flags, coms, forms, names, hdr, blanks, unit) ==
    [msgs |-> msgs, reps |-> reps, lines |-> lines, refs |-> refs, flags |-> flags,
     coms |-> coms, forms |-> forms, names |-> names, hdr |-> hdr, blanks |-> blanks,
     unit |-> unit]

Units == << T("word "), <<120, LF>>, <<QUOTE, 92, 233>>, <<20013, 25991>>, T("a") >>

Rep(u, n) == <<>> \o [i \in 1..(n * Len(u)) |-> u[((i - 1) % Len(u)) + 1]]

\* The same number of digits for all the numbers, so their order is kept
Padded(n) == LET ds == Digits(n) IN [i \in 1..(6 - Len(ds)) |-> 48] \o ds

Unit(z) == Units[z.unit]
Body(z) == Rep(Unit(z), z.reps * z.lines)
\* The text of a field (a letter) of the k-th message
TextAt(z, f, k) == <<f>> \o Padded(k) \o Body(z)

(***************************************************************************)
(* The document                                                            *)
(***************************************************************************)
Quote(s) == <<QUOTE>> \o s \o <<QUOTE>>
Piece(z) == Rep(Escape(Unit(z)), z.reps)
\* Lines of a string: the first one with the keyword and what is not repeated
StringLines(z, prefix, kw, own) ==
    IF z.lines = 1
    THEN << prefix \o kw \o <<SP>> \o Quote(own \o Piece(z)) >>
    ELSE LET p == prefix \o Quote(Piece(z))
         IN << prefix \o kw \o <<SP>> \o Quote(own) >> \o [i \in 1..z.lines |-> p]
NoPrefix == <<>>
P_prev == T("#| ")
P_ref == T("#: ")
P_flag == T("#, ")
P_com == T("#. ")
P_tcom == T("# ")
FieldLines(z, prefix, kw, f, k) == StringLines(z, prefix, kw, <<f>> \o Padded(k))

Ref(k, i) == T("f") \o Digits(k) \o <<COLON>> \o Digits(i)
FlagName(i) == T("flag-") \o Digits(i)
\* As many words as can be, in one line
OneLine(marker, words, sep) ==
    IF words = <<>> THEN <<>>
    ELSE << marker \o words[1] \o Concat([i \in 1..(Len(words) - 1) |-> sep \o words[i + 1]]) >>
CommentLine(k, i) == T("c") \o Digits(k) \o <<SP>> \o Digits(i)

F_ctx == 99
F_id == 105
F_pl == 112
F_str == 115
F_prev == 118

MessageLines(z, k) ==
    [i \in 1..z.coms |-> P_com \o CommentLine(k, i)]
    \o [i \in 1..z.coms |-> P_tcom \o CommentLine(k, i)]
    \o OneLine(P_ref, [i \in 1..z.refs |-> Ref(k, i)], <<SP>>)
    \o OneLine(P_flag, [i \in 1..z.flags |-> FlagName(i)], <<COMMA, SP>>)
    \o FieldLines(z, P_prev, K_ctx, F_prev, k)
    \o FieldLines(z, P_prev, K_id, F_prev, k)
    \o FieldLines(z, P_prev, K_plural, F_prev, k)
    \o FieldLines(z, NoPrefix, K_ctx, F_ctx, k)
    \o FieldLines(z, NoPrefix, K_id, F_id, k)
    \o (IF z.forms = 0 THEN FieldLines(z, NoPrefix, K_str, F_str, k)
        ELSE FieldLines(z, NoPrefix, K_plural, F_pl, k)
             \o Concat([i \in 1..z.forms |->
                  FieldLines(z, NoPrefix, K_strN \o Digits(i - 1) \o <<RBRACKET>>, F_str, i)]))

HeaderLines(z) == IF z.hdr = 0 THEN <<>> ELSE [i \in 1..z.hdr |-> P_tcom \o CommentLine(0, i)] \o << <<>> >>
Name(i) == T("X-") \o Padded(i)
PairLine(i) == Name(i) \o T(": v") \o Digits(i)
MetaLines(z) ==
    IF z.names = 0 THEN <<>>
    ELSE << T("msgid \"\""), T("msgstr \"\"") >>
         \o [i \in 1..z.names |-> Quote(PairLine(i) \o T("\\n"))]

DocumentLines(z) ==
    HeaderLines(z) \o MetaLines(z) \o [i \in 1..z.blanks |-> <<>>]
    \o Concat([k \in 1..z.msgs |-> MessageLines(z, k)])
Joined(lines) == Concat([i \in 1..Len(lines) |-> Append(lines[i], LF)])
Document(z) == LET lines == DocumentLines(z) IN Joined(lines)

\* The same with an error in its last line
BadLines(z) ==
    << T("oops \"x\""), K_plural \o <<SP>> \o Quote(Piece(z)),
       K_id \o <<SP>> \o Quote(Piece(z) \o <<QUOTE, 120>>),
       K_id \o <<SP, QUOTE>> \o Piece(z),
       P_prev \o K_id \o <<SP>> \o Quote(Piece(z) \o <<QUOTE>>),
       K_strN \o Rep(T("9"), z.reps + 3) \o T("] \"\""),
       K_id \o <<SP>> \o Quote(Piece(z) \o T("\\")) >>
BrokenDocument(z, b) ==
    LET lines == DocumentLines(z) IN Joined(Append(lines, BadLines(z)[b]))

(***************************************************************************)
(* The file                                                                *)
(***************************************************************************)
Comments(z, k) ==
    IF z.coms = 0 THEN <<>>
    ELSE << Concat([i \in 1..z.coms |-> (IF i = 1 THEN <<>> ELSE <<LF>>) \o CommentLine(k, i)]) >>
Message(z, k, start) ==
    [ id |-> TextAt(z, F_id, k), str |-> IF z.forms = 0 THEN <<TextAt(z, F_str, k)>> ELSE <<>>,
      pl |-> IF z.forms = 0 THEN <<>> ELSE <<TextAt(z, F_pl, k)>>,
      strs |-> [i \in 1..z.forms |-> TextAt(z, F_str, i)],
      ctx |-> <<TextAt(z, F_ctx, k)>>, obs |-> FALSE,
      com |-> Comments(z, k), tcom |-> Comments(z, k),
      occ |-> [i \in 1..z.refs |-> <<T("f") \o Digits(k), Digits(i)>>],
      flags |-> [i \in 1..z.flags |-> FlagName(i)],
      pid |-> <<TextAt(z, F_prev, k)>>, ppl |-> <<TextAt(z, F_prev, k)>>,
      pctx |-> <<TextAt(z, F_prev, k)>>, line |-> start ]
\* Lines of a message, and of what is before the first one
Height(z) ==
    LET s == IF z.lines = 1 THEN 1 ELSE 1 + z.lines
    IN 2 * z.coms + (IF z.refs = 0 THEN 0 ELSE 1) + (IF z.flags = 0 THEN 0 ELSE 1)
       + s * (6 + (IF z.forms = 0 THEN 0 ELSE z.forms))
Before(z) == z.blanks + (IF z.hdr = 0 THEN 0 ELSE z.hdr + 1) + (IF z.names = 0 THEN 0 ELSE 2 + z.names)
File(z) ==
    FileOf(IF z.hdr = 0 THEN <<>>
           ELSE << Concat([i \in 1..z.hdr |-> (IF i = 1 THEN <<>> ELSE <<LF>>) \o CommentLine(0, i)]) >>,
           [i \in 1..z.names |-> <<Name(i), T("v") \o Digits(i)>>], FALSE,
           [k \in 1..z.msgs |->
              Message(z, k, IF k = 1 /\ z.names = 0 THEN 0
                            ELSE Before(z) + (k - 1) * Height(z) + 1)])

\* The error of the document with a bad line
BrokenError(z, b) ==
    ErrorOf([ kind |-> <<"unknown", "order", "quote", "unterminated", "quote", "index",
                         "unterminated">>[b],
              line |-> Before(z) + z.msgs * Height(z) + 1,
              col |-> CASE b = 3 -> Len(Piece(z)) + 1 + Len(K_id) + 2
                        [] b = 5 -> Len(Piece(z)) + 1 + Len(K_id) + 5
                        [] OTHER -> 0 ])
============================================================================
