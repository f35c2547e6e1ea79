------------------------------ MODULE MCMerge ------------------------------
(* All the pairs of a file and a reference with up to MaxLen messages each,*)
(* merged; and the reference of the next merge.                            *)
EXTENDS Catalog, Json
CONSTANTS MaxLen, MaxRef, Emit, Near

E0 == NewEntry(0)
\* The same keys in the file and in the reference, but not the same messages
\* (near each other, with Near)
Keys == IF Near THEN << <<T("a"), <<>>>>, <<T("A"), <<>>>>, <<T("a "), <<>>>>, <<T("a"), <<T("c")>>>>,
                        <<T("a"), <<T("c ")>>>>, <<T("a"), <<T("C")>>>> >>
        ELSE << <<T("a"), <<>>>>, <<T("a"), <<<<>>>>>>, <<T("a"), <<T("c")>>>>, <<T("b"), <<>>>> >>
Mine(k, o) == [E0 EXCEPT !.id = Keys[k][1], !.ctx = Keys[k][2], !.str = <<T("mine")>>, !.obs = o,
                         !.tcom = <<T("m")>>, !.line = k]
Theirs(k, o) == [E0 EXCEPT !.id = Keys[k][1], !.ctx = Keys[k][2], !.str = <<<<>>>>, !.obs = o,
                           !.com = <<T("k")>>, !.occ = <<<<T("f"), T("1")>>>>, !.flags = <<T("c-format")>>,
                           !.pid = <<T("x")>>, !.ppl = <<T("y")>>, !.pctx = <<T("z")>>,
                           !.tcom = <<T("r")>>, !.pl = <<T("pl")>>, !.strs = <<T("s")>>,
                           !.line = 10 + k]
VARIABLES mine, theirs
vars == <<mine, theirs>>
Init == mine = <<>> /\ theirs = <<>>
Next == \/ /\ Len(mine) < MaxLen /\ theirs = <<>>
           /\ \E k \in 1..Len(Keys), o \in BOOLEAN : mine' = Append(mine, Mine(k, o))
           /\ UNCHANGED theirs
        \/ /\ Len(theirs) < MaxRef
           /\ \E k \in 1..Len(Keys), o \in BOOLEAN : theirs' = Append(theirs, Theirs(k, o))
           /\ UNCHANGED mine
Spec == Init /\ [][Next]_vars
Printed == Emit => PrintT(ToJson([ents |-> mine, ref |-> theirs, now |-> Merged(mine, theirs)]))

Result1 == Merged(mine, theirs)
SameBut(a, b) == [a EXCEPT !.obs = b.obs] = b
\* Every message is still there, in the same order, with everything but its mark
NothingLost == /\ Len(Result1) >= Len(mine)
               /\ \A i \in 1..Len(mine) : SameBut(Result1[i], mine[i])
\* The rest are the messages of the reference that were not there, once, in order
NewOnes ==
    LET added == SubSeq(Result1, Len(mine) + 1, Len(Result1))
        fresh == { j \in 1..Len(theirs) : /\ ~HasMessage(mine, theirs[j])
                                          /\ ~HasMessage(SubSeq(theirs, 1, j - 1), theirs[j]) }
    IN /\ Len(added) = Cardinality(fresh)
       /\ \A j \in fresh : added[Cardinality({ i \in fresh : i <= j })] = theirs[j]
AllPresent == \A j \in 1..Len(theirs) : HasMessage(Result1, theirs[j])
Marks == \A i \in 1..Len(Result1) :
           Result1[i].obs = \/ ~HasMessage(theirs, Result1[i])
                            \/ IF i <= Len(mine) THEN mine[i].obs
                               ELSE \E j \in 1..Len(theirs) : theirs[j] = Result1[i] /\ theirs[j].obs
Again == Merged(Result1, theirs) = Result1
=============================================================================
