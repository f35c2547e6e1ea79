------------------------------- MODULE MCDisk -------------------------------
(* A PO file, a MO file and the files of a disk: what is written where,    *)
(* and what is loaded from there. The content of a path is the form it was *)
(* written in and the messages.                                            *)
EXTENDS Catalog, Json
CONSTANTS MaxOps, Emit, NPaths

E0 == NewEntry(0)
Pool == << [E0 EXCEPT !.id = T("b"), !.str = <<T("short")>>],
           [E0 EXCEPT !.id = T("a"), !.ctx = <<T("c")>>, !.pl = <<T("as")>>, !.strs = <<T("x"), T("y")>>],
           [E0 EXCEPT !.id = T("old"), !.obs = TRUE, !.str = <<T("gone")>>],
           [E0 EXCEPT !.id = <<233, 10>>, !.str = <<<<>>>>, !.tcom = <<T("to do")>>] >>
Paths == 1..NPaths
VARIABLES po, mo, disk, hist
vars == <<po, mo, disk, hist>>
Init == /\ po = <<Pool[1], Pool[3]>> /\ mo = CompiledFile(<<Pool[1]>>)
        /\ disk = [p \in Paths |-> <<>>] /\ hist = <<>>
Did(o) == hist' = Append(hist, o)

Written(form, ents) == <<form, ents>>
\* PO text of a PO file; image of the translated messages of a PO file
SavePo(p) == disk' = [disk EXCEPT ![p] = Written("potext", po)] /\ UNCHANGED <<po, mo>>
SavePoAsMo(p) == disk' = [disk EXCEPT ![p] = Written("image", CompiledFile(po))] /\ UNCHANGED <<po, mo>>
SaveMo(p) == disk' = [disk EXCEPT ![p] = Written("image", mo)] /\ UNCHANGED <<po, mo>>
SaveMoAsPo(p) == disk' = [disk EXCEPT ![p] = Written("motext", mo)] /\ UNCHANGED <<po, mo>>
AsPo(m) == [E0 EXCEPT !.id = m.id, !.str = m.str, !.pl = m.pl, !.strs = m.strs, !.ctx = m.ctx]
LoadPo(p) == /\ disk[p] # <<>> /\ disk[p][1] \in {"potext", "motext"}
             /\ po' = Reloaded([hdr |-> <<>>, meta |-> <<>>, fuzzy |-> FALSE,
                                ents |-> IF disk[p][1] = "potext" THEN disk[p][2]
                                         ELSE Map(disk[p][2], AsPo)]).ents
             /\ UNCHANGED <<mo, disk>>
LoadMo(p) == /\ disk[p] # <<>> /\ disk[p][1] \in {"image", "foreign"}
             /\ mo' = FromImage(disk[p][2])
             /\ UNCHANGED <<po, disk>>
\* Other tool writes an image in the other byte order
Foreign(p) == /\ disk' = [disk EXCEPT ![p] = Written("foreign", CompiledFile(<<Pool[2], Pool[1]>>))]
              /\ UNCHANGED <<po, mo>>
Add(i) == /\ ~\E j \in 1..Len(po) : po[j].id = Pool[i].id
          /\ po' = Append(po, Pool[i]) /\ UNCHANGED <<mo, disk>>
Drop == po # <<>> /\ po' = Tail(po) /\ UNCHANGED <<mo, disk>>
Clear == mo # <<>> /\ mo' = Tail(mo) /\ UNCHANGED <<po, disk>>

Next == /\ Len(hist) < MaxOps
        /\ \/ \E p \in Paths : \/ Did(<<"save_po", p>>) /\ SavePo(p)
                               \/ Did(<<"save_po_as_po", p>>) /\ SavePo(p)
                               \/ Did(<<"save_po_as_mo", p>>) /\ SavePoAsMo(p)
                               \/ Did(<<"save_mo", p>>) /\ SaveMo(p)
                               \/ Did(<<"save_mo_as_mo", p>>) /\ SaveMo(p)
                               \/ Did(<<"save_mo_as_po", p>>) /\ SaveMoAsPo(p)
                               \/ Did(<<"load_po", p>>) /\ LoadPo(p)
                               \/ Did(<<"load_mo", p>>) /\ LoadMo(p)
                               \/ Did(<<"foreign", p>>) /\ Foreign(p)
           \/ \E i \in {2, 4} : Did(<<"add", i>>) /\ Add(i)
           \/ Did(<<"drop", 0>>) /\ Drop
           \/ Did(<<"clear", 0>>) /\ Clear
Spec == Init /\ [][Next]_vars
Printed == (Emit /\ Len(hist) > 0) =>
             PrintT(ToJson([pool |-> Pool, h |-> hist, po |-> po, mo |-> mo, disk |-> disk]))
\* Saving and loading what was saved changes nothing more
Stable == \A p \in Paths : (disk[p] # <<>> /\ disk[p][1] = "image") =>
            FromImage(FromImage(disk[p][2])) = FromImage(disk[p][2])
=============================================================================
