------------------------------- MODULE MCLine -------------------------------
(* Lines typed token by token, right or wrong, where a document is at some  *)
(* place: nothing read, a msgid, a plural msgid, a translation, comments.   *)
(* Every one is printed with the outcome of the document that ends in it,   *)
(* and of the document that goes on with another message.                   *)
EXTENDS PoReader, Json
CONSTANTS Kind,      \* "kw" (keywords and strings), "cm" (comments), or one kind of
                     \* comment: "ref" (references), "flag", "note", "prev"
          Where,     \* places of the document
          MaxToks,   \* tokens after the first one
          Emit

Places == Map(<< <<>>, <<"msgid \"a\"">>, <<"msgid \"a\"", "msgid_plural \"b\"">>,
                 <<"msgid \"a\"", "msgstr \"b\"">>, <<"# h", "", "#: r:1">> >>,
              LAMBDA ls : Map(ls, T))
More == Map(<<"msgid \"z\"", "msgstr \"y\"">>, T)

Keys == {"msgid", "msgctxt", "msgid_plural", "msgstr", "msgstr[", ""}
Firsts == IF Kind = "kw" THEN { T(k) : k \in Keys } \cup { T("#~ ") \o T(k) : k \in {"msgid", "msgstr["} }
                              \cup { T("#| ") \o T(k) : k \in Keys }
          ELSE IF Kind = "ref" THEN { T("#: ") }
          ELSE IF Kind = "flag" THEN { T("#, ") }
          ELSE IF Kind = "note" THEN { T("# "), T("#. "), T("#"), T("##") }
          ELSE IF Kind = "prev" THEN { T("#| msgid "), T("#|") \o <<9>> \o T("msgctxt") \o <<9>> }
          ELSE { T("#") }
\* Characters that are not of ASCII: a letter, a wide space, a digit, a
\* superscript and the no-break space
Odd == { <<233>>, <<12288>>, <<1635>>, <<178>>, <<160>> }
Tokens1 == IF Kind = "kw"
           THEN { T(t) : t \in {"[", "]", "0", "1", " ", "\"", "x", "\\", "-", "_plural", " \"x\"", "] \"x\""} }
                \cup { <<9>>, <<12288>>, <<233>> }
           ELSE IF Kind = "ref" THEN { T(t) : t \in {"x", ":", "1", "0", " ", "-"} } \cup { <<9>> } \cup Odd
           ELSE IF Kind = "flag" THEN { T(t) : t \in {"x", ",", " ", "fuzzy", "-"} } \cup { <<9>> } \cup Odd
           ELSE IF Kind = "note" THEN { T(t) : t \in {"x", "#", " ", ",", "~"} } \cup { <<9>> } \cup Odd
           ELSE IF Kind = "prev" THEN { T(t) : t \in {"\"", "x", "\\", " ", "n"} } \cup { <<9>> } \cup Odd
           ELSE { T(t) : t \in {" ", ",", ".", ":", "|", "~", "#", "x", "1", "fuzzy", "\"", "msgid "} }
                \cup { <<9>>, <<12288>>, <<233>> }

Read(ps, ls) == FoldLeft(LAMBDA s, l : IF s.err # <<>> THEN s ELSE ReadLine(s, l), ps, ls)
At == [p \in 1..Len(Places) |-> Read(InitReader, Places[p])]

VARIABLES place, typed, toks
vars == <<place, typed, toks>>
Init == place \in Where /\ typed \in Firsts /\ toks = 0
Type == toks < MaxToks /\ \E k \in Tokens1 : typed' = typed \o k /\ toks' = toks + 1
Next == Type /\ UNCHANGED place
Spec == Init /\ [][Next]_vars
View == <<place, typed>>

Doc(ls) == Concat(Map(ls, LAMBDA l : Append(l, LF)))
After == Read(At[place], <<typed>>)
Printed ==
    Emit => /\ PrintT(ToJson([d |-> Doc(Places[place] \o <<typed>>), r |-> EndOfFile(After)]))
            /\ (After.err = <<>> =>
                  PrintT(ToJson([d |-> Doc(Places[place] \o <<typed>> \o More),
                                 r |-> EndOfFile(Read(After, More))])))

(***************************************************************************)
(* What any line can do                                                    *)
(***************************************************************************)
\* The lines read before are kept: nothing of a message that was ended is lost
KeepsEnded ==
    LET b == At[place]
    IN After.err = <<>> =>
         /\ After.n = b.n + 1
         /\ Len(After.ents) >= Len(b.ents)
         /\ SubSeq(After.ents, 1, Len(b.ents)) = b.ents
\* White space around a line is nothing
Around == Read(At[place], << <<SP, 9>> \o typed \o <<SP>> >>) = After
                    \/ After.err # <<>>
\* An error is of the last line and names it
ErrorHere == After.err # <<>> => EndOfFile(After).line = At[place].n + 1
\* A line of the form of a comment, without content, is nothing
NeverBoth == LET l == Lex(typed) IN l.class = "err" => After.err # <<>>
=============================================================================
