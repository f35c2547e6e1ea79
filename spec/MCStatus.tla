------------------------------ MODULE MCStatus ------------------------------
(* Files with messages of all the kinds, with the views of their status.   *)
EXTENDS Catalog, Json
CONSTANTS MaxLen, Emit

E0 == NewEntry(0)
AllFlags == { <<>>, <<FuzzyFlag>>, <<T("fuzzyx")>>, <<T("Fuzzy")>>, <<T("c-format"), FuzzyFlag>>,
              <<FuzzyFlag, T("c-format")>>, <<T("no-fuzzy"), T("")>> }
Bodies == { E0, [E0 EXCEPT !.str = <<<<>>>>], [E0 EXCEPT !.str = <<T("t")>>],
            [E0 EXCEPT !.str = <<T(" ")>>] }
          \cup { [E0 EXCEPT !.pl = <<T("p")>>, !.strs = x] :
                   x \in { <<>>, <<<<>>>>, <<T("t")>>, <<T("t"), <<>>>>, <<<<>>, T("t")>>,
                           <<<<>>, <<>>>>, <<T("t"), T("u")>>, <<T("t"), <<>>, T("u")>>,
                           <<T("t"), T("u"), <<>>>> } }
Kinds == { [b EXCEPT !.flags = z, !.obs = o] : b \in Bodies, z \in AllFlags, o \in BOOLEAN }
Few == { e \in Kinds : /\ e.flags \in {<<>>, <<T("c-format"), FuzzyFlag>>}
                       /\ e.str # <<T(" ")>> /\ Len(e.strs) < 3 }

VARIABLES lst
Init == lst = <<>>
Next == /\ Len(lst) < MaxLen
        /\ \E e \in (IF lst = <<>> THEN Kinds ELSE Few) : lst' = Append(lst, e)
Spec == Init /\ [][Next]_lst
Printed == Emit => PrintT(ToJson([ents |-> lst, v |-> Views(lst),
                                  mo |-> Positions(lst, MoIsTranslated)]))
V1 == Views(lst)
\* Each message in one of the two views
Partition == /\ Range1(V1.tr) \cap Range1(V1.un) = {}
             /\ Range1(V1.tr) \cup Range1(V1.un) = 1..Len(lst)
             /\ Len(V1.tr) + Len(V1.un) = Len(lst)
Separate == /\ Range1(V1.tr) \cap Range1(V1.obs) = {}
            /\ Range1(V1.tr) \cap Range1(V1.fz) = {}
            /\ Range1(V1.fz) \cap Range1(V1.obs) = {}
            /\ Range1(V1.fz) = Range1(V1.isf) \ Range1(V1.obs)
\* What is compiled is what is translated
CompiledIsTranslated == Len(CompiledFile(lst)) = Len(V1.tr)
\* The percentage is at the ends only when all or none are
Percents == /\ IsPercent(lst, 100000) <=> (lst # <<>> /\ V1.un = <<>>)
            /\ IsPercent(lst, 0) <=> V1.tr = <<>>
=============================================================================
