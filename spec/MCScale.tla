------------------------------ MODULE MCScale ------------------------------
(* Documents of any size. In the small sizes the machine reads each of     *)
(* them and gives the file, or the error, in closed form. Then the closed  *)
(* form is printed for big sizes.                                          *)
EXTENDS Scale, Json

CONSTANTS Small,   \* whether small sizes are explored, or else big ones
          All,     \* whether all the small ones
          Breaks,  \* the bad lines after it, 0 for none
          Big      \* how big

VARIABLES size,    \* the size of the document
          broken   \* the bad line after it

SmallSizes ==
    { z \in [msgs : 0..2, reps : IF All THEN 0..2 ELSE {0, 2}, lines : 1..2, refs : {0, 2},
             flags : {0, 2}, coms : {0, 2}, forms : {0, 2}, names : {0, 2}, hdr : {0, 2},
             blanks : {0, 2}, unit : {1}] :
        All \/ (z.refs = z.flags /\ z.refs = z.coms /\ z.blanks = z.refs) }
    \cup [msgs : 1..2, reps : {0, 2}, lines : 1..3, refs : IF All THEN {0, 1} ELSE {1},
          flags : {1}, coms : {1}, forms : {0, 1, 3}, names : IF All THEN {0, 1} ELSE {1},
          hdr : {1}, blanks : {1}, unit : 1..Len(Units)]
\* One number is big, the other ones are small
Base == Sizes(2, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1)
With(f, n) == [Base EXCEPT ![f] = n]
BigSizes ==
    { With("msgs", 2 * Big), With("refs", 2 * Big), With("flags", 2 * Big), With("coms", 2 * Big),
      With("names", 2 * Big), With("hdr", 2 * Big), With("lines", 2 * Big), With("forms", 256),
      \* more lines than a number of two bytes can count
      With("blanks", 70000) }
    \cup { [With("reps", r) EXCEPT !.unit = u, !.msgs = 1, !.names = 0] :
             r \in {20, Big \div 2, 16 * Big}, u \in 1..Len(Units) }
    \cup { [With("reps", r) EXCEPT !.unit = u, !.forms = 2, !.lines = 3] :
             r \in {20, Big}, u \in 1..Len(Units) }

Init == /\ size \in IF Small THEN SmallSizes ELSE BigSizes
        /\ broken \in Breaks
        /\ (broken = 2 => size.msgs > 0)
Next == FALSE /\ UNCHANGED <<size, broken>>
Spec == Init /\ [][Next]_<<size, broken>>

Doc == IF broken = 0 THEN Document(size) ELSE BrokenDocument(size, broken)
Outcome == IF broken = 0 THEN File(size) ELSE BrokenError(size, broken)

Reads == Small => Parse(Doc) = Outcome
Printed == ~Small => PrintT(ToJson([d |-> Doc, r |-> Outcome]))
============================================================================
