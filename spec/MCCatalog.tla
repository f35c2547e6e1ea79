----------------------------- MODULE MCCatalog -----------------------------
(* Catalogs with messages added in any order, whose keys differ in ways    *)
(* that matter for their order: prefixes, separators and long characters.  *)
EXTENDS Mo, Json
CONSTANTS MaxEntries, Emit

E0 == [id |-> <<>>, str |-> <<>>, pl |-> <<>>, strs |-> <<>>, ctx |-> <<>>]
Ids == { T("a"), T("ab"), T("b"), <<1>>, <<5>>, <<233>>, <<65281>>, <<128512>> }
Ctxs == { <<>>, <<<<>>>>, <<T("a")>>, <<<<233>>>> }
Bodies == { [E0 EXCEPT !.str = <<T("t")>>], [E0 EXCEPT !.str = <<>>],
            [E0 EXCEPT !.pl = <<T("p")>>, !.strs = <<T("x"), <<>>, <<233>>>>] }
Metas == { <<>>, << <<T("Language"), T("xx")>>, <<T("A"), T("b: c")>> >> }

VARIABLES cat
Init == \E m \in Metas : cat = [meta |-> m, ents |-> <<>>]
Next == /\ Len(cat.ents) < MaxEntries
        /\ \E d \in Ids, x \in Ctxs, y \in Bodies :
             /\ \A j \in 1..Len(cat.ents) : cat.ents[j].id # d \/ cat.ents[j].ctx # x
             /\ (Len(cat.ents) > 0 => y = [E0 EXCEPT !.str = <<T("t")>>])
             /\ cat' = [cat EXCEPT !.ents = Append(@, [y EXCEPT !.id = d, !.ctx = x])]
Spec == Init /\ [][Next]_cat
Orders(n) == IF n < 2 THEN BOOLEAN \X {0, 1} ELSE { <<n % 2 = 0, 0>>, <<n % 2 = 1, 1>> }
Printed == Emit => \A o \in Orders(Len(cat.ents)) :
    PrintT(ToJson([r |-> [meta |-> cat.meta, ents |-> cat.ents, be |-> o[1], rev |-> o[2]]]))
\* The order of the bytes of the keys is the order of their characters
Ordered == \A i, j \in 1..Len(cat.ents) :
             LET a == UpToNul(Key(cat.ents[i]))
                 b == UpToNul(Key(cat.ents[j]))
             IN CmpText(a, b) = CmpText(Utf8(a), Utf8(b))
=============================================================================
