------------------------------ MODULE MCSearch ------------------------------
(* All the files of up to MaxLen messages of a pool, with the results of   *)
(* all the searches over them. The texts of the pool are in several fields,*)
(* present, empty and absent. With Near, they are different but near: in   *)
(* case, white space, length and accents.                                  *)
EXTENDS Catalog, Json
CONSTANTS MaxLen, Emit, Near

E0 == NewEntry(0)
Nears == << T("a"), T("A"), T("a "), T(" a"), T("aa"), <<97, LF>>, <<225>>, <<97, 769>>, <<65345>>, <<65279, 97>> >>
\* One text in all the fields, so each of them tells it from the others
NearPool == Map(Nears, LAMBDA x : [E0 EXCEPT !.id = x, !.str = <<x>>, !.ctx = <<x>>, !.pl = <<x>>,
                                             !.pid = <<x>>, !.ppl = <<x>>, !.pctx = <<x>>])
\* and the same id in near contexts
            \o Map(Nears, LAMBDA x : [E0 EXCEPT !.id = T("a"), !.ctx = <<x>>])
Pool == IF Near THEN NearPool ELSE <<
    [E0 EXCEPT !.id = T("a"), !.str = <<T("t")>>],
    [E0 EXCEPT !.id = T("a"), !.ctx = <<<<>>>>, !.str = <<<<>>>>, !.pid = <<<<>>>>],
    [E0 EXCEPT !.id = T("a"), !.ctx = <<T("c")>>, !.pl = <<T("p")>>, !.strs = <<T("t"), T("g")>>,
               !.pid = <<T("m")>>, !.ppl = <<T("n")>>, !.pctx = <<T("w")>>],
    [E0 EXCEPT !.id = T("b"), !.ctx = <<T("c")>>, !.obs = TRUE, !.str = <<T("t")>>],
    [E0 EXCEPT !.id = <<>>, !.ctx = <<T("a")>>, !.str = <<T("a")>>, !.pl = <<T("a")>>,
               !.pid = <<T("a")>>, !.ppl = <<T("a")>>, !.pctx = <<T("a")>>],
    [E0 EXCEPT !.id = T("a"), !.obs = TRUE, !.pctx = <<T("c")>>, !.ppl = <<T("p")>>] >>
Texts == IF Near THEN Range1(Nears) ELSE { <<>>, T("a"), T("b"), T("t"), T("c"), T("p"), T("m"), T("n"), T("w"), T("A") }
Names == IF Near THEN PoFields ELSE PoFields \cup { <<>>, T("msgstr_plural"), T("comment") }
Contexts == IF Near THEN { <<x>> : x \in Range1(Nears) } \cup {<<>>} ELSE { <<>>, <<<<>>>>, <<T("c")>>, <<T("a")>> }
Given == IF Near THEN Range1(Nears) ELSE { <<>>, T("c"), T("a") }
Kinds == {"po", "mo"}

VARIABLES knd, lst
vars == <<knd, lst>>
Ents(k, ps) == Map(ps, LAMBDA i : IF k = "po" THEN Pool[i] ELSE OnlyMo(Pool[i]))
Init == knd \in Kinds /\ lst = <<>>
Next == /\ Len(lst) < MaxLen
        /\ \E i \in 1..Len(Pool) : lst' = Append(lst, i)
        /\ UNCHANGED knd
Spec == Init /\ [][Next]_vars

Queries(es) ==
    { <<"find", v, by, ctx, obs, Find(knd, es, v, by, ctx, obs)>> :
        v \in Texts, by \in Names, ctx \in Contexts, obs \in IF knd = "po" THEN BOOLEAN ELSE {TRUE} }
    \cup { <<"find_id", v, FindId(es, v)>> : v \in Texts }
    \cup { <<"find_idctx", v, ctx, FindIdCtx(knd, es, v, ctx)>> : v \in Texts, ctx \in Given }
Printed == Emit => PrintT(ToJson([k |-> knd, ents |-> Ents(knd, lst), q |-> Queries(Ents(knd, lst))]))

(* A single lookup is the first of all the matches, and a search without   *)
(* filters is the union of the searches with each context.                 *)
Consistent ==
    LET es == Ents(knd, lst)
    IN /\ \A v \in Texts :
            /\ FindId(es, v) = FirstOf(Find(knd, es, v, F_id, <<>>, TRUE))
            /\ \A x \in Given :
                 LET a == Find(knd, es, v, F_id, <<x>>, TRUE)
                     b == FindIdCtx(knd, es, v, x)
                 IN IF knd = "po" \/ x # <<>> THEN b = FirstOf(a)
                    ELSE b = FirstOf(SelectSeq(a, LAMBDA i : es[i].ctx # <<>>))
       /\ \A v \in Texts, by \in Names :
            LET all == Find(knd, es, v, by, <<>>, TRUE)
            IN /\ by \notin FieldsOf(knd) => all = <<>>
               /\ Range1(all) = UNION { Range1(Find(knd, es, v, by, <<x>>, TRUE)) :
                                         x \in { OrEmpty(es[i].ctx) : i \in 1..Len(es) } }
               /\ \A i \in 1..(Len(all) - 1) : all[i] < all[i + 1]
               /\ Range1(Find(knd, es, v, by, <<>>, FALSE))
                  = { i \in Range1(all) : ~IsObs(knd, es[i]) }
=============================================================================
