------------------------------ MODULE MCHeader ------------------------------
(* Documents with header entries typed piece by piece: flags before them,   *)
(* pairs in lines or split in several pieces, repeated names, lines that    *)
(* are not pairs, other messages before and second header entries.          *)
EXTENDS PoReader, Json
CONSTANTS MaxLen, Emit

Starts == << <<>>, <<"#, fuzzy">>, <<"#, no-wrap, fuzzy">>, <<"# c", "#, fuzzy">>,
             <<"#, fuzzy-not">>, <<"msgid \"m\"", "msgstr \"A: z\\n\"">>,
             <<"msgctxt \"\"", "msgid \"\"", "msgstr \"A: z\\n\"">>,
             <<"#~ msgid \"\"", "#~ msgstr \"A: z\\n\"">> >>
Heads == << <<"msgid \"\"">>, <<"#, fuzzy", "msgid \"\"">>, <<"msgctxt \"\"", "msgid \"\"">> >>
Firsts == << "msgstr \"\"", "msgstr \"A: b\\n\"" >>
Pieces == << "\"A: b\\n\"", "\"A: c \"", "\"B:\\n\"", "\"B: x: y\\n\"", "\" A: d\\n\"",
             "\"plain\\n\"", "\"\\n\"", "\"AB: \\t e\\n\"" >>

VARIABLES lns, rdr
vars == <<lns, rdr>>
Read(ss) == FoldLeft(LAMBDA ps, l : IF ps.err # <<>> THEN ps ELSE ReadLine(ps, T(l)), InitReader, ss)
Doc(ss) == Concat(Map(ss, LAMBDA l : Append(T(l), LF)))
Init == \E s \in 1..Len(Starts) : lns = Starts[s] /\ rdr = Read(Starts[s])
Add(ls) == /\ rdr.err = <<>> /\ Len(lns) < MaxLen
           /\ lns' = lns \o ls
           /\ rdr' = FoldLeft(LAMBDA ps, l : IF ps.err # <<>> THEN ps ELSE ReadLine(ps, T(l)), rdr, ls)
           /\ rdr'.err = <<>>
Entry == rdr.st # "MI" /\ \E j \in 1..Len(Heads) : Add(Heads[j])
First == rdr.st = "MI" /\ \E j \in 1..Len(Firsts) : Add(<<Firsts[j]>>)
More == rdr.st = "MS" /\ \E j \in 1..Len(Pieces) : Add(<<Pieces[j]>>)
Next == Entry \/ First \/ More
Spec == Init /\ [][Next]_vars

Printed == Emit => PrintT(ToJson([d |-> Doc(lns), r |-> EndOfFile(rdr)]))

(***************************************************************************)
(* The same, from the lines                                                *)
(***************************************************************************)
\* The first msgid without text nor context
First1 == LET at == { i \in 1..Len(lns) : /\ lns[i] \in {"msgid \"\"", "#~ msgid \"\""}
                                          /\ ~(i > 1 /\ lns[i - 1] = "msgctxt \"\"") }
          IN IF at = {} THEN 0 ELSE CHOOSE x \in at : \A y \in at : x <= y
Inner(l) == LET s == T(l)
                q == IndexFrom(s, QUOTE, 1)
            IN SubSeq(s, q + 1, Len(s) - 1)
Ends == LET after == { i \in (First1 + 1)..Len(lns) : lns[i] \in {"msgid \"\"", "#, fuzzy", "msgctxt \"\""} }
        IN IF after = {} THEN Len(lns) ELSE (CHOOSE x \in after : \A y \in after : x <= y) - 1
Value == Concat([i \in 1..(Ends - First1) |-> Inner(lns[First1 + i])])
Pairs == LET ls == SelectSeq(Split(Unescape(Value).text, LF),
                             LAMBDA l : \E i \in 1..(Len(l) - 1) : l[i] = COLON /\ l[i + 1] = SP)
             At(l) == CHOOSE i \in 1..(Len(l) - 1) :
                        /\ l[i] = COLON /\ l[i + 1] = SP
                        /\ \A j \in 1..(i - 1) : ~(l[j] = COLON /\ l[j + 1] = SP)
             names == { SubSeq(ls[i], 1, At(ls[i]) - 1) : i \in 1..Len(ls) }
             Vals(n) == Concat([i \in 1..Len(ls) |->
                          IF SubSeq(ls[i], 1, At(ls[i]) - 1) = n THEN Trim(DropN(ls[i], At(ls[i]) + 1))
                          ELSE <<>>])
         IN { <<n, Vals(n)>> : n \in names }
PairsAgree ==
    LET r == EndOfFile(rdr)
    IN IF First1 = 0 THEN r.meta = <<>> /\ ~r.fuzzy
       ELSE /\ Range1(r.meta) = Pairs
            /\ r.fuzzy = (First1 > 1 /\ lns[First1 - 1] \in {"#, fuzzy", "#, no-wrap, fuzzy"})
\* The header entry is not a message
OthersOnly == Len(EndOfFile(rdr).ents)
              = Cardinality({ i \in 1..Len(lns) : lns[i] \in {"msgid \"\"", "#~ msgid \"\"", "msgid \"m\""} })
                - (IF First1 = 0 THEN 0 ELSE 1)
=============================================================================
