----------------------------- MODULE MCHistory -----------------------------
(* Histories of changes of a file, each printed with the list of messages  *)
(* that the file has after each change.                                    *)
EXTENDS Catalog, Json
CONSTANTS MaxOps, Emit, Starts, Near

E0 == NewEntry(0)
Pool == IF Near THEN <<
    [E0 EXCEPT !.id = T("A"), !.str = <<T("t")>>],
    [E0 EXCEPT !.id = T("a "), !.ctx = <<T("c ")>>],
    [E0 EXCEPT !.id = T("a"), !.ctx = <<T("C")>>],
    [E0 EXCEPT !.id = T("a"), !.ctx = <<T("c ")>>],
    [E0 EXCEPT !.id = T("a"), !.ctx = <<T("c")>>] >> ELSE <<
    [E0 EXCEPT !.id = T("a"), !.str = <<T("t")>>],
    [E0 EXCEPT !.id = T("a"), !.ctx = <<<<>>>>, !.str = <<T("u")>>],
    [E0 EXCEPT !.id = T("a"), !.ctx = <<T("c")>>, !.pl = <<T("p")>>, !.strs = <<T("t"), <<>>>>],
    [E0 EXCEPT !.id = T("b"), !.obs = TRUE, !.flags = <<T("fuzzy")>>],
    [E0 EXCEPT !.id = T("a"), !.str = <<T("t")>>, !.line = 7, !.com = <<T("k")>>] >>
Starting == << <<>>, <<1, 2, 3, 4>>, <<1, 1, 5, 3>>, <<4, 3, 2, 1>> >>
Msg(k, i) == IF k = "po" THEN Pool[i] ELSE OnlyMo(Pool[i])

VARIABLES knd, hist, now
vars == <<knd, hist, now>>
Init == \E k \in {"po", "mo"}, st \in Starts :
          /\ knd = k
          /\ now = Map(Starting[st], LAMBDA i : Msg(k, i))
          /\ hist = << [op |-> "start", now |-> now] >>

Ops == { [op |-> "append", e |-> Msg(knd, i)] : i \in 1..Len(Pool) }
       \cup { [op |-> "put", at |-> j, e |-> Msg(knd, i)] : j \in 1..Len(now), i \in {3, 4} }
       \cup { [op |-> "merge_at", at |-> j, e |-> Msg(knd, 5)] : j \in 1..Len(now) }
       \cup { [op |-> "remove", e |-> Msg(knd, i)] : i \in 1..Len(Pool) }
       \cup { [op |-> "remove_id", id |-> d] : d \in {T("a"), T("b"), <<>>} }
       \cup { [op |-> "remove_idctx", id |-> d, ctx |-> x] : d \in {T("a"), T("b")}, x \in {<<>>, T("c")} }
Next == /\ Len(hist) <= MaxOps
        /\ \E o \in Ops : LET after == Apply(knd, now, o)
                          IN /\ now' = after
                             /\ hist' = Append(hist, o @@ [now |-> after])
        /\ UNCHANGED knd
Spec == Init /\ [][Next]_vars
Printed == (Emit /\ Len(hist) = MaxOps + 1) => PrintT(ToJson([k |-> knd, h |-> hist]))

(* What a removal leaves: the others, in the same order                    *)
IsSub(a, b, i) == SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b)) = a
Last2 == hist[Len(hist)]
Before == hist[Len(hist) - 1].now
RemovesRight ==
    Len(hist) > 1 =>
      CASE Last2.op \in {"remove_id", "remove_idctx"} ->
             LET m == { i \in 1..Len(Before) :
                          /\ Before[i].id = Last2.id
                          /\ Last2.op = "remove_idctx" => OrEmpty(Before[i].ctx) = Last2.ctx }
             IN IF m = {} THEN now = Before
                ELSE \E i \in m : (\A j \in m : i <= j) /\ IsSub(now, Before, i)
        [] Last2.op = "remove" ->
             /\ \A i \in 1..Len(now) : now[i] # Last2.e
             /\ Len(now) = Len(Before) - Cardinality({ i \in 1..Len(Before) : Before[i] = Last2.e })
        [] Last2.op = "append" -> IsSub(Before, now, Len(now))
        [] OTHER -> Len(now) = Len(Before)
=============================================================================
