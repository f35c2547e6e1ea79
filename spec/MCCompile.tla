----------------------------- MODULE MCCompile -----------------------------
(* PO files with messages in all the states of a translation, printed with *)
(* the messages of the catalog they are compiled to.                       *)
EXTENDS Mo, Json
CONSTANTS MaxEntries, Emit,
          Few    \* whether only some kinds of messages are used

E0 == NewEntry(0)
Ids == << T("a"), T("b") >>
Ctxs == { <<>>, <<T("c")>>, <<<<>>>> }
FlagSets == { <<>>, <<T("fuzzy")>>, <<T("c-format")>>, <<T("c-format"), T("fuzzy")>> }
Plain == { [E0 EXCEPT !.str = x] : x \in { <<>>, <<<<>>>>, <<T("t")>>, <<T(" ")>> } }
Forms == UNION { [1..n -> { <<>>, T("f") }] : n \in 0..2 }
Plural == { [E0 EXCEPT !.pl = <<T("p")>>, !.strs = x] : x \in Forms }
AllKinds == { [k EXCEPT !.flags = g, !.obs = o] : k \in Plain \cup Plural, g \in FlagSets, o \in BOOLEAN }

FewKinds == { [E0 EXCEPT !.str = <<T("t")>>], [E0 EXCEPT !.str = <<<<>>>>],
              [E0 EXCEPT !.str = <<T("t")>>, !.flags = <<FuzzyFlag>>],
              [E0 EXCEPT !.str = <<T("t")>>, !.obs = TRUE],
              [E0 EXCEPT !.pl = <<T("p")>>, !.strs = <<T("f"), T("g")>>],
              [E0 EXCEPT !.pl = <<T("p")>>, !.strs = <<T("f"), <<>>>>] }
Kinds == IF Few THEN FewKinds ELSE AllKinds

VARIABLES ents
Init == ents = <<>>
Next == /\ Len(ents) < MaxEntries
        /\ \E k \in Kinds : \E i \in 1..Len(Ids) : \E x \in Ctxs :
             /\ \A j \in 1..Len(ents) : ents[j].id # Ids[i] \/ ents[j].ctx # x
             /\ ents' = Append(ents, [k EXCEPT !.id = Ids[i], !.ctx = x])
Spec == Init /\ [][Next]_ents
Printed == Emit => PrintT(ToJson([f |-> [hdr |-> <<>>, meta |-> <<<<T("L"), T("m")>>>>, fuzzy |-> FALSE,
                                         ents |-> ents],
                                  s |-> Map(Selected(ents), Compiled)]))
\* What is selected is usable: it has no form without text
Usable == \A i \in 1..Len(Selected(ents)) :
            LET m == Compiled(Selected(ents)[i])
            IN Value(m) # <<>> /\ (\A j \in 1..Len(m.strs) : m.strs[j] # <<>>) /\ MessageOf(Key(m), Value(m)) = m
=============================================================================
