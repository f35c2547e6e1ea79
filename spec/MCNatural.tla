----------------------------- MODULE MCNatural -----------------------------
(* The order of names is a total order: otherwise the text of a file would   *)
(* depend on the order its names were given in.                            *)
EXTENDS Natural
CONSTANTS Alphabet, MaxLen
Names == UNION { [1..n -> Alphabet] : n \in 1..MaxLen }
VARIABLES n1, n2, n3
Init == n1 \in Names /\ n2 \in Names /\ n3 = <<>>
Next == n3 = <<>> /\ n3' \in Names /\ UNCHANGED <<n1, n2>>
Spec == Init /\ [][Next]_<<n1, n2, n3>>
Antisymmetric == CmpName(n1, n2) = -CmpName(n2, n1)
EqualIsSame == (CmpName(n1, n2) = 0) <=> (n1 = n2)
Transitive == (n3 # <<>> /\ CmpName(n1, n2) <= 0 /\ CmpName(n2, n3) <= 0) => CmpName(n1, n3) <= 0
============================================================================
