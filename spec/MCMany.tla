------------------------------- MODULE MCMany -------------------------------
(* Files of many messages, whose number is around a power of two. What is  *)
(* searched, viewed or merged in them is told by their number alone, and   *)
(* must be what the operations of the catalog say.                         *)
EXTENDS Catalog, Json
CONSTANTS MaxPower, Mode, Emit

E0 == NewEntry(0)
Shapes == {"alike", "each", "mixed"}
\* All the same, each with its id, or four kinds by turns
Msg(shape, i) ==
    LET e == [E0 EXCEPT !.id = IF shape = "alike" THEN T("a") ELSE T("m") \o Digits(i),
                        !.str = <<T("t")>>]
    IN IF shape # "mixed" THEN e
       ELSE CASE i % 4 = 0 -> [e EXCEPT !.obs = TRUE]
              [] i % 4 = 1 -> [e EXCEPT !.ctx = <<T("c")>>]
              [] i % 4 = 2 -> [e EXCEPT !.flags = <<FuzzyFlag>>, !.ctx = <<T("c")>>]
              [] i % 4 = 3 -> [e EXCEPT !.str = <<<<>>>>]
Seen(shape, lo, hi) == [i \in 1..(hi - lo + 1) |-> Msg(shape, lo + i - 1)]

VARIABLES knd, shp, power, plus
vars == <<knd, shp, power, plus>>
Init == /\ knd \in (IF Mode = "search" THEN {"po", "mo"} ELSE {"po"})
        /\ shp \in Shapes /\ power = 1 /\ plus = 0
Next == \/ /\ power < MaxPower /\ plus = 0 /\ power' = power + 1 /\ UNCHANGED <<knd, shp, plus>>
        \/ /\ plus = 0 /\ plus' \in {-1, 1} /\ UNCHANGED <<knd, shp, power>>
Spec == Init /\ [][Next]_vars

Size == 2 ^ power + plus
Full == Seen(shp, 1, Size)
Ents == IF knd = "po" THEN Full ELSE Map(Full, OnlyMo)
All == [i \in 1..Size |-> i]
Turn(k) == SelectSeq(All, LAMBDA i : i % 4 = k)
Id(i) == Msg(shp, i).id

(***************************************************************************)
(* Searches                                                                *)
(***************************************************************************)
Queries ==
    LET es == Ents
    IN { <<"find", v, F_id, <<>>, TRUE, Find(knd, es, v, F_id, <<>>, TRUE)>> : v \in {Id(1), Id(Size)} }
       \cup { <<"find", T("t"), F_str, x, o, Find(knd, es, T("t"), F_str, x, o)>> :
                x \in {<<>>, <<T("c")>>, <<<<>>>>}, o \in IF knd = "po" THEN BOOLEAN ELSE {TRUE} }
       \cup { <<"find", T("c"), F_ctx, <<>>, TRUE, Find(knd, es, T("c"), F_ctx, <<>>, TRUE)>>,
              <<"find_id", Id(Size), FindId(es, Id(Size))>>,
              <<"find_idctx", Id(Size), T("c"), FindIdCtx(knd, es, Id(Size), T("c"))>> }
Searched ==
    Mode = "search" =>
      LET es == Ents
          where == Find(knd, es, T("t"), F_str, <<>>, FALSE)
      IN /\ FindId(es, Id(Size)) = (IF shp = "alike" THEN <<1>> ELSE <<Size>>)
         /\ Find(knd, es, Id(Size), F_id, <<>>, TRUE) = (IF shp = "alike" THEN All ELSE <<Size>>)
         /\ where = (IF shp # "mixed" THEN All
                     ELSE IF knd = "po" THEN SelectSeq(All, LAMBDA i : i % 4 \in {1, 2})
                     ELSE SelectSeq(All, LAMBDA i : i % 4 # 3))

(***************************************************************************)
(* Views                                                                   *)
(***************************************************************************)
Viewed ==
    Mode = "status" =>
      LET v == Views(Full)
      IN IF shp # "mixed" THEN v.tr = All /\ v.un = <<>> /\ v.obs = <<>> /\ v.fz = <<>>
                               /\ IsPercent(Full, 100000)
         ELSE /\ v.tr = Turn(1) /\ v.obs = Turn(0) /\ v.fz = Turn(2)
              /\ Len(v.tr) + Len(v.un) = Size
              /\ Size % 4 = 0 => IsPercent(Full, 25000)

(***************************************************************************)
(* Merges with a reference that has the last half of the messages and as   *)
(* many new ones                                                           *)
(***************************************************************************)
Half == Size \div 2
Ref == Seen(shp, Half + 1, Size + Half)
MergedAll ==
    Mode = "merge" =>
      LET now == Merged(Full, Ref)
      IN IF shp = "alike" THEN now = Full
         ELSE /\ Len(now) = Size + Half
              /\ \A i \in 1..Len(now) : /\ now[i].id = Id(i)
                                        /\ now[i].obs = (i <= Half \/ Msg(shp, i).obs)

Printed ==
    Emit => PrintT(ToJson(
      CASE Mode = "search" -> [k |-> knd, ents |-> Ents, q |-> Queries]
        [] Mode = "status" -> [ents |-> Full, v |-> Views(Full), mo |-> Positions(Full, MoIsTranslated)]
        [] Mode = "merge" -> [ents |-> Full, ref |-> Ref, now |-> Merged(Full, Ref)]))
=============================================================================
