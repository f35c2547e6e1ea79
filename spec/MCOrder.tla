------------------------------ MODULE MCOrder ------------------------------
(* Pairs of messages whose fields are in every combination of relations    *)
(* (smaller, equal, greater), and pairs with any two values in one field,  *)
(* with the result of their comparison for each selection of fields.       *)
EXTENDS Catalog, Json
CONSTANTS Emit, Mode    \* "relations" or "values"

E0 == NewEntry(0)
\* Values of each of the fields, in ascending order when they are different
Values == <<
    << TRUE, FALSE >>,
    << <<>>, << <<T("f"), <<>>>> >>, << <<T("f"), T("1")>>, <<T("g"), T("1")>> >>,
       << <<T("g"), T("1")>>, <<T("f"), T("1")>> >>, << <<T("f"), T("10")>> >>,
       << <<T("f"), T("2")>> >>, << <<T("g"), T("1")>> >>, << <<T("g"), T("1")>>, <<T("g"), T("1")>> >> >>,
    << <<>>, <<T("")>>, <<T("a"), T("b")>>, <<T("b"), T("a")>>, <<T("ab")>>, <<T("b")>>,
       <<T("b"), T("b")>> >>,
    << <<<<>>>>, <<>>, <<<<1>>>>, <<T("B")>>, <<T("a")>>, <<T("ab")>>, <<<<233>>>>, <<<<65281>>>>,
       <<<<128512>>>> >>,
    << <<<<>>>>, <<>>, <<<<1>>>>, <<T("B")>>, <<T("a")>>, <<T("ab")>>, <<<<233>>>> >>,
    << <<>>, <<T("")>>, <<T("a"), T("b")>>, <<T("b"), T("a")>>, <<T("ab")>>, <<T("b")>>,
       <<T("b"), T("b")>>, <<T("b"), <<>>>> >>,
    << <<>>, <<1>>, T("B"), T("a"), T("ab"), <<233>>, <<65281>>, <<128512>> >>,
    << <<<<>>>>, <<>>, <<<<1>>>>, <<T("B")>>, <<T("a")>>, <<T("ab")>>, <<<<233>>>> >> >>
With(e, f, v) == CASE f = 1 -> [e EXCEPT !.obs = v] [] f = 2 -> [e EXCEPT !.occ = v]
                   [] f = 3 -> [e EXCEPT !.flags = v] [] f = 4 -> [e EXCEPT !.ctx = v]
                   [] f = 5 -> [e EXCEPT !.pl = v] [] f = 6 -> [e EXCEPT !.strs = v]
                   [] f = 7 -> [e EXCEPT !.id = v] [] f = 8 -> [e EXCEPT !.str = v]
\* Fields that are never compared
Other(e) == [e EXCEPT !.com = <<T("c")>>, !.tcom = <<T("t")>>, !.pid = <<T("p")>>, !.ppl = <<T("q")>>,
                      !.pctx = <<T("r")>>, !.line = 9]

\* Low and high values for the combinations of relations
Lo == <<1, 3, 3, 2, 4, 3, 4, 2>>
Hi == <<2, 5, 5, 5, 5, 6, 5, 5>>

VARIABLES x1, x2, nf
vars == <<x1, x2, nf>>
Init == x1 = E0 /\ x2 = Other(E0) /\ nf = 0
Relation == /\ Mode = "relations" /\ nf < NFields /\ nf' = nf + 1
            /\ \E r \in { <<Lo[nf'], Lo[nf']>>, <<Lo[nf'], Hi[nf']>>, <<Hi[nf'], Lo[nf']>> } :
                 /\ x1' = With(x1, nf', Values[nf'][r[1]])
                 /\ x2' = With(x2, nf', Values[nf'][r[2]])
OneValue == /\ Mode = "values" /\ nf = 0
            /\ \E f \in 1..NFields : \E i, j \in 1..Len(Values[f]) :
                 /\ nf' = 10 + f
                 /\ x1' = With(x1, f, Values[f][i])
                 /\ x2' = With(x2, f, Values[f][j])
Next == Relation \/ OneValue
Spec == Init /\ [][Next]_vars

RECURSIVE Power2(_)
Power2(n) == IF n = 0 THEN 1 ELSE 2 * Power2(n - 1)
\* The selection of number n: bit i for the field i + 1
Selections == [n \in 0..255 |-> [i \in 1..NFields |-> (n \div Power2(i - 1)) % 2 = 1]]
Vector(kind, a, b) == LET d == Cmps(kind, a, b)
                      IN [n \in 1..256 |-> Decide(d, Selections[n - 1], 1)]
Ended1 == nf >= NFields
Printed == (Emit /\ Ended1) =>
    /\ PrintT(ToJson([k |-> "po", a |-> x1, b |-> x2, v |-> Vector("po", x1, x2)]))
    /\ (x1.obs = x2.obs /\ x1.occ = x2.occ /\ x1.flags = x2.flags) =>
         PrintT(ToJson([k |-> "mo", a |-> OnlyMo(x1), b |-> OnlyMo(x2), v |-> Vector("mo", x1, x2)]))

Opposite == \A k \in {"po", "mo"} :
              LET d == Cmps(k, x1, x2)
                  e == Cmps(k, x2, x1)
              IN \A f \in 1..NFields : d[f] = -e[f]
Bag(s) == [v \in Range1(s) |-> Cardinality({ i \in 1..Len(s) : s[i] = v })]
\* Equality is to have the same values in the selected fields
EqualIsSame ==
    LET d == PoCmps(x1, x2)
    IN /\ (d[1] = 0) <=> (x1.obs = x2.obs)
       /\ (d[2] = 0) <=> (Bag(x1.occ) = Bag(x2.occ))
       /\ (d[3] = 0) <=> (Bag(x1.flags) = Bag(x2.flags))
       /\ (d[4] = 0) <=> (x1.ctx = x2.ctx)
       /\ (d[5] = 0) <=> (x1.pl = x2.pl)
       /\ (d[6] = 0) <=> (Bag(x1.strs) = Bag(x2.strs))
       /\ (d[7] = 0) <=> (x1.id = x2.id)
       /\ (d[8] = 0) <=> (x1.str = x2.str)
\* Any order of three values of a field is transitive
Transitive ==
    nf > 10 =>
      LET f == nf - 10
          d(a, b) == PoCmps(With(E0, f, a), With(E0, f, b))[f]
          s == Values[f]
      IN \A k \in 1..Len(s) :
           LET v == s[k]
               w == CASE f = 1 -> x1.obs [] f = 2 -> x1.occ [] f = 3 -> x1.flags [] f = 4 -> x1.ctx
                      [] f = 5 -> x1.pl [] f = 6 -> x1.strs [] f = 7 -> x1.id [] f = 8 -> x1.str
               u == CASE f = 1 -> x2.obs [] f = 2 -> x2.occ [] f = 3 -> x2.flags [] f = 4 -> x2.ctx
                      [] f = 5 -> x2.pl [] f = 6 -> x2.strs [] f = 7 -> x2.id [] f = 8 -> x2.str
           IN (d(w, u) <= 0 /\ d(u, v) <= 0) => d(w, v) <= 0
=============================================================================
