------------------------------ MODULE MCAlias ------------------------------
(* Messages, lists and mappings that go in and out of a Python file. All   *)
(* of them are values: each variable has its own copy, and only its own    *)
(* changes are seen in it.                                                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps, Emit, Ended  \* print only histories of all the operations

Ids == {1, 2}
Strs == {0, 1}
\* A message: id, translation and a list (of flags or plural forms)
Blank == <<1, 0, <<>>>>
None == <<>>

VARIABLES fil,      \* messages of the file
          hand,     \* two messages in hands of the program, or nothing
          wait,     \* messages that an iterator has still to give, or nothing
          lists,    \* a list taken from a message, or nothing
          got,      \* a list of messages taken from the file, or nothing
          meta, mapp,   \* mapping of the file, and one taken from it
          hist
vars == <<fil, hand, wait, lists, got, meta, mapp, hist>>
Init == /\ fil = << <<1, 0, <<>>>>, <<2, 1, <<1>>>> >>
        /\ hand = <<Blank, <<2, 0, <<>>>>>> /\ wait = None /\ lists = None /\ got = None
        /\ meta = {<<1, 1>>} /\ mapp = None /\ hist = <<>>

Did(o) == hist' = Append(hist, o)
First(id) == { k \in 1..Len(fil) : fil[k][1] = id /\ \A j \in 1..(k - 1) : fil[j][1] # id }
Put(m, k, v) == { p \in m : p[1] # k } \cup {<<k, v>>}

Take == \E h \in {1, 2} :
    \/ \E k \in 1..Len(fil) : \E how \in {"index", "listed", "iterated"} :
         /\ hand' = [hand EXCEPT ![h] = fil[k]] /\ Did(<<how, h, k>>)
         /\ UNCHANGED <<fil, wait, lists, got, meta, mapp>>
    \/ \E d \in Ids : \E k \in First(d) : \E how \in {"find", "find_id", "view"} :
         /\ hand' = [hand EXCEPT ![h] = fil[k]] /\ Did(<<how, h, d>>)
         /\ UNCHANGED <<fil, wait, lists, got, meta, mapp>>
    \/ /\ wait # None /\ wait[1] # <<>>
       /\ hand' = [hand EXCEPT ![h] = wait[1][1]] /\ wait' = <<Tail(wait[1])>> /\ Did(<<"next", h, 0>>)
       /\ UNCHANGED <<fil, lists, got, meta, mapp>>
    \/ /\ got # None /\ got[1] # <<>>
       /\ hand' = [hand EXCEPT ![h] = got[1][1]] /\ Did(<<"from_list", h, 0>>)
       /\ UNCHANGED <<fil, wait, lists, got, meta, mapp>>
Change == \E h \in {1, 2} :
    /\ \/ \E d \in Ids : hand' = [hand EXCEPT ![h][1] = d] /\ Did(<<"set_id", h, d>>)
       \/ \E w \in Strs : hand' = [hand EXCEPT ![h][2] = w] /\ Did(<<"set_str", h, w>>)
       \/ hand' = [hand EXCEPT ![h][3] = <<2>>] /\ Did(<<"set_list", h, 2>>)
       \/ lists # None /\ hand' = [hand EXCEPT ![h][3] = lists[1]] /\ Did(<<"give_list", h, 0>>)
       \/ hand' = [hand EXCEPT ![h] = hand[3 - h]] /\ Did(<<"merge", h, 3 - h>>)
       \/ hand' = [hand EXCEPT ![h] = Blank] /\ Did(<<"new", h, 0>>)
    /\ UNCHANGED <<fil, wait, lists, got, meta, mapp>>
Lists == \/ \E h \in {1, 2} : /\ lists' = <<hand[h][3]>> /\ Did(<<"take_list", h, 0>>)
                              /\ UNCHANGED <<fil, hand, wait, got, meta, mapp>>
         \/ /\ lists # None /\ Len(lists[1]) < 2 /\ lists' = <<Append(lists[1], 3)>> /\ Did(<<"grow_list", 0, 3>>)
            /\ UNCHANGED <<fil, hand, wait, got, meta, mapp>>
         \/ /\ got' = <<fil>> /\ Did(<<"take_entries", 0, 0>>)
            /\ UNCHANGED <<fil, hand, wait, lists, meta, mapp>>
         \/ /\ got # None /\ got[1] # <<>> /\ got' = <<Tail(got[1])>> /\ Did(<<"pop_entries", 0, 0>>)
            /\ UNCHANGED <<fil, hand, wait, lists, meta, mapp>>
         \/ /\ got # None /\ got[1] # <<>> /\ got' = [got EXCEPT ![1][1][2] = 1] /\ Did(<<"set_in_entries", 0, 1>>)
            /\ UNCHANGED <<fil, hand, wait, lists, meta, mapp>>
File == \/ \E h \in {1, 2} :
             /\ \/ Len(fil) < 4 /\ fil' = Append(fil, hand[h]) /\ Did(<<"append", h, 0>>)
                \/ fil' = SelectSeq(fil, LAMBDA e : e # hand[h]) /\ Did(<<"remove", h, 0>>)
             /\ UNCHANGED <<hand, wait, lists, got, meta, mapp>>
        \/ /\ \/ fil' = hand /\ Did(<<"assign", 0, 0>>)
              \/ fil' = <<hand[1], hand[1]>> /\ Did(<<"assign_twice", 0, 0>>)
              \/ got # None /\ fil' = got[1] /\ Did(<<"assign_entries", 0, 0>>)
              \/ fil' = <<>> /\ Did(<<"assign_none", 0, 0>>)
              \/ \E d \in Ids : \E k \in First(d) :
                   /\ fil' = SubSeq(fil, 1, k - 1) \o SubSeq(fil, k + 1, Len(fil))
                   /\ Did(<<"remove_id", 0, d>>)
           /\ UNCHANGED <<hand, wait, lists, got, meta, mapp>>
        \/ wait' = <<fil>> /\ Did(<<"iter", 0, 0>>) /\ UNCHANGED <<fil, hand, lists, got, meta, mapp>>
Mapping == \/ mapp' = <<meta>> /\ Did(<<"take_meta", 0, 0>>) /\ UNCHANGED <<fil, hand, wait, lists, got, meta>>
           \/ /\ mapp # None
              /\ \/ mapp' = <<Put(mapp[1], 1, 2)>> /\ UNCHANGED meta /\ Did(<<"set_in_meta", 1, 2>>)
                 \/ mapp' = <<Put(mapp[1], 2, 1)>> /\ UNCHANGED meta /\ Did(<<"set_in_meta", 2, 1>>)
                 \/ meta' = mapp[1] /\ UNCHANGED mapp /\ Did(<<"assign_meta", 0, 0>>)
                 \/ meta' = { p \in meta : \A q \in mapp[1] : q[1] # p[1] } \cup mapp[1]
                    /\ UNCHANGED mapp /\ Did(<<"update_meta", 0, 0>>)
              /\ UNCHANGED <<fil, hand, wait, lists, got>>
           \/ meta' = { p \in meta : p[1] # 1 } /\ UNCHANGED mapp /\ Did(<<"remove_meta", 1, 0>>)
              /\ UNCHANGED <<fil, hand, wait, lists, got>>
Next == /\ Len(hist) < MaxOps
        /\ Take \/ Change \/ Lists \/ File \/ Mapping
Spec == Init /\ [][Next]_vars
Printed == (Emit /\ hist # <<>> /\ (Ended => Len(hist) = MaxOps)) =>
    PrintT(ToJson([h |-> hist, fil |-> fil, hand |-> hand, meta |-> meta,
                   wait |-> wait, lists |-> lists, got |-> got, mapp |-> mapp]))
\* Only what an operation is about changes
Framed == [][ LET o == hist'[Len(hist')][1]
              IN /\ (fil' # fil => o \in {"append", "remove", "assign", "assign_twice", "assign_entries",
                                         "assign_none", "remove_id"})
                 /\ (meta' # meta => o \in {"assign_meta", "update_meta", "remove_meta"})
                 /\ (wait' # wait => o \in {"iter", "next"}) ]_vars
=============================================================================
