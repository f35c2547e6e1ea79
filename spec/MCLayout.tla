----------------------------- MODULE MCLayout -----------------------------
(* A typist that writes documents in any layout. The content of a document *)
(* is a list of items; each of them can be typed in the usual way or with  *)
(* some oddity: indentation, blanks at the end, more white space after the *)
(* keyword or the marker, CRLF, blank lines before, and strings split in   *)
(* any point in continuation lines. The reader reads what is typed at the  *)
(* same time. Every document within MaxOdd oddities of the usual layout is *)
(* reached, and all of them must be read as the usual one.                 *)
EXTENDS PoReader, Json

CONSTANTS MaxOdd, Emit

\* Items: a string with the units that can not be split, or other lines
S(pre, kw, units) == [t |-> "str", pre |-> T(pre), kw |-> T(kw), units |-> Map(units, T)]
L(line) == [t |-> "line", pre |-> T(line), kw |-> <<>>, units |-> <<>>]
W(mark, sep, words) == [t |-> "words", pre |-> T(mark), kw |-> T(sep), units |-> Map(words, T)]

Docs == <<
    << S("", "msgctxt", <<"c", "\\\\">>), S("", "msgid", <<"a", "\\\"", "b">>),
       S("", "msgstr", <<"x", "\\n">>) >>,
    << L("# head"), S("", "msgid", <<>>), S("", "msgstr", <<"A: b", "\\n", "C: ", "d", "\\n">>),
       L("# tr"), W("#:", "", <<"f:1", "g">>), W("#,", ",", <<"fuzzy", "c-format">>),
       S("", "msgid", <<"i">>), S("", "msgstr", <<>>) >>,
    << S("#|", "msgctxt", <<"v", "\\t">>), S("#|", "msgid", <<"m", "\\\"">>),
       S("#|", "msgid_plural", <<"n", "o">>), S("", "msgid", <<"i", "j">>), S("", "msgstr", <<"s">>) >>,
    << S("", "msgid", <<"i">>), S("", "msgid_plural", <<"p", " ", "q">>),
       S("", "msgstr[0]", <<"\\\\", "n">>), S("", "msgstr[1]", <<" ", "y">>) >>,
    << S("", "msgid", <<"i">>), S("", "msgstr", <<"t">>), S("#~", "msgctxt", <<"z">>),
       S("#~", "msgid", <<"o", "\\n">>), S("#~", "msgstr", <<"q", "r">>), L("#. gen"),
       S("", "msgid", <<"l">>), S("", "msgstr", <<"m">>) >> >>

\* Oddities of a line
Indents == {T(" "), <<TAB>>}
Gaps == {T("   "), <<TAB>>, <<SP, TAB>>}
Trails == {T("  "), <<TAB>>}
Usual == [ind |-> <<>>, gap |-> <<SP>>, trail |-> <<>>, eol |-> <<LF>>]
Variants ==
    {Usual} \cup { [Usual EXCEPT !.ind = x] : x \in Indents }
    \cup { [Usual EXCEPT !.gap = x] : x \in Gaps }
    \cup { [Usual EXCEPT !.trail = x] : x \in Trails }
    \cup { [Usual EXCEPT !.eol = <<CR, LF>>],
           [ind |-> <<TAB, SP>>, gap |-> <<TAB, TAB>>, trail |-> <<SP>>, eol |-> <<CR, LF>>] }

Quoting(s) == <<QUOTE>> \o s \o <<QUOTE>>

\* A line with a piece of the string of an item
StringLine(item, first, piece, v) ==
    (IF item.pre = <<>> THEN <<>> ELSE item.pre \o v.gap)
    \o (IF first THEN item.kw \o v.gap ELSE <<>>)
    \o Quoting(piece)
WordsLine(item, v) == item.pre \o v.gap \o Join(item.units, item.kw \o v.gap)
Typed(v, line) == v.ind \o line \o v.trail \o v.eol

\* The usual layout of a document
UsualLine(item) ==
    Typed(Usual, CASE item.t = "str" -> StringLine(item, TRUE, Concat(item.units), Usual)
                   [] item.t = "line" -> item.pre
                   [] item.t = "words" -> WordsLine(item, Usual))
UsualText(x) == Concat(Map(Docs[x], UsualLine))
WithoutLines(r) ==
    IF r.ok THEN [r EXCEPT !.ents = Map(@, LAMBDA e : [e EXCEPT !.line = 0])] ELSE r
Content == <<>> \o [x \in 1..Len(Docs) |-> WithoutLines(Parse(UsualText(x)))]

VARIABLES dno,    \* document being typed
          typed,  \* items completely typed
          nunits, \* units of the next item already typed, -1 for none of its lines
          odd,    \* oddities so far
          txt,    \* what is typed
          rdr      \* the reader
vars == <<dno, typed, nunits, odd, txt, rdr>>

Init == /\ dno \in 1..Len(Docs) /\ typed = 0 /\ nunits = -1 /\ rdr = InitReader
        /\ \/ odd = 0 /\ txt = <<>>
           \/ odd = 1 /\ txt = <<BOM>>

Complete == typed = Len(Docs[dno])
Item == Docs[dno][typed + 1]

\* The end of line does not reach the reader
Type(line, v) ==
    LET full == Typed(v, line)
    IN /\ txt' = txt \o full
       /\ rdr' = ReadLine(rdr, (IF rdr.n = 0 THEN txt ELSE <<>>) \o v.ind \o line \o v.trail)

TypeString ==
    /\ ~Complete /\ Item.t = "str"
    /\ \E v \in Variants, n \in 0..Len(Item.units) :
        LET from == IF nunits = -1 THEN 0 ELSE nunits
            to == from + n
            first == nunits = -1
            rest == Len(Item.units) - to
            cost == (IF v = Usual THEN 0 ELSE 1) + (IF first THEN 0 ELSE 1)
        IN /\ to <= Len(Item.units)
           /\ first \/ n > 0 \/ odd = 0  \* an empty continuation only alone
           /\ odd + cost <= MaxOdd
           /\ odd' = odd + cost
           /\ Type(StringLine(Item, first, Concat(SubSeq(Item.units, from + 1, to)), v), v)
           /\ IF rest = 0 THEN typed' = typed + 1 /\ nunits' = -1
              ELSE typed' = typed /\ nunits' = to
    /\ UNCHANGED dno

TypeOther ==
    /\ ~Complete /\ Item.t # "str"
    /\ \E v \in Variants :
        /\ odd + (IF v = Usual THEN 0 ELSE 1) <= MaxOdd
        /\ odd' = odd + (IF v = Usual THEN 0 ELSE 1)
        /\ Type(IF Item.t = "line" THEN Item.pre ELSE WordsLine(Item, v), v)
    /\ typed' = typed + 1 /\ UNCHANGED <<dno, nunits>>

TypeBlank ==
    /\ ~Complete /\ odd < MaxOdd /\ odd' = odd + 1
    /\ \E v \in {Usual, [Usual EXCEPT !.eol = <<CR, LF>>], [Usual EXCEPT !.ind = <<SP, TAB>>]} :
         Type(<<>>, v)
    /\ UNCHANGED <<dno, typed, nunits>>

Next == /\ TypeString \/ TypeOther \/ TypeBlank
        /\ (Emit /\ typed' = Len(Docs[dno])) => PrintT(ToJson([d |-> txt', r |-> Content[dno]]))
Spec == Init /\ [][Next]_vars

\* Whatever was typed, it is read as the usual layout of the document
SameContent == Complete => WithoutLines(EndOfFile(rdr)) = Content[dno]
\* The reader that takes the whole text agrees, also without final end of line
SameText ==
    Complete => /\ WithoutLines(Parse(txt)) = Content[dno]
                /\ WithoutLines(Parse(SubSeq(txt, 1, Len(txt) - 1))) = Content[dno]
NeverWrong == rdr.err = <<>>
=============================================================================
