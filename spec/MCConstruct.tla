----------------------------- MODULE MCConstruct -----------------------------
(* Messages constructed in Python with any of the parameters given, and    *)
(* then changed with one of the setters.                                   *)
EXTENDS Binding, Json
CONSTANTS Emit

E0 == NewEntry(0)
\* Parameters in the order of the constructor
Params == <<"id", "str", "pl", "strs", "ctx", "tcom", "com", "flags">>
MoParams == 5
Given == [id |-> T("an id"), str |-> <<T("translation")>>, pl |-> <<T("plural")>>,
          strs |-> <<T("one"), <<>>, T("other")>>, ctx |-> <<T("context")>>, tcom |-> <<T("tr")>>,
          com |-> <<T("ex")>>, flags |-> <<FuzzyFlag, T("c-format")>>]
Setters == <<"id", "str", "pl", "strs", "ctx", "tcom", "com", "flags", "obs", "occ", "pid", "ppl",
             "pctx", "line">>
\* Texts that could be taken for others: with white space at their ends, in
\* upper case, of two characters outside of the plane of the rest, and long
Odd == { T(" new "), T("NEW"), <<97, 769, 128512, LF>>, [i \in 1..300 |-> 97 + (i % 26)] }
OptOf(xs) == { <<x>> : x \in xs }
Twenty == [i \in 1..20 |-> T("v") \o Digits(i)]
Values == [id |-> {<<>>, <<233>>} \cup Odd, str |-> {<<>>, <<<<>>>>, <<T("new")>>} \cup OptOf(Odd),
           pl |-> {<<>>, <<T("new")>>} \cup OptOf(Odd), strs |-> {<<>>, <<T("x")>>, <<<<>>, <<>>>>, Twenty},
           ctx |-> {<<>>, <<<<>>>>, <<T("new")>>} \cup OptOf(Odd),
           tcom |-> {<<>>, <<T("new")>>} \cup OptOf(Odd), com |-> {<<>>, <<T("new")>>} \cup OptOf(Odd),
           flags |-> {<<>>, <<T("python-format")>>, <<T("b"), T("a"), T("b")>>, Twenty},
           obs |-> BOOLEAN,
           occ |-> {<<>>, <<<<T("f"), T("3")>>>>, <<<<T("f"), <<>>>>, <<T("a b"), T("03")>>>>,
                    Map(Twenty, LAMBDA x : <<x, T("1")>>)},
           pid |-> {<<>>, <<T("new")>>} \cup OptOf(Odd), ppl |-> {<<>>, <<T("new")>>} \cup OptOf(Odd),
           pctx |-> {<<>>, <<<<>>>>} \cup OptOf(Odd), line |-> {0, 12, 255, 256, 65536, 2147483647}]

VARIABLES knd, given, made, sets
vars == <<knd, given, made, sets>>
With(e, f, v) == [e EXCEPT ![f] = v]
Build(g) == FoldLeft(LAMBDA e, f : IF f \in g THEN With(e, f, Given[f]) ELSE e, E0, Params)
Init == /\ knd \in {"po", "mo"} /\ sets = <<>>
        /\ given \in SUBSET { Params[j] : j \in 1..(IF knd = "po" THEN Len(Params) ELSE MoParams) }
        /\ made = Build(given)
Next == /\ Len(sets) < 1
        /\ \E j \in 1..(IF knd = "po" THEN Len(Setters) ELSE MoParams) : \E w \in Values[Setters[j]] :
             /\ made' = With(made, Setters[j], w)
             /\ sets' = Append(sets, <<Setters[j], w>>)
        /\ UNCHANGED <<knd, given>>
Spec == Init /\ [][Next]_vars
Shown == IF knd = "po" THEN made ELSE OnlyMo(made)
Printed == Emit => PrintT(ToJson([k |-> knd, all |-> Given, given |-> given, sets |-> sets, e |-> Shown,
                                  tr |-> IF knd = "po" THEN IsTranslated(made) ELSE MoIsTranslated(made),
                                  fz |-> IsFuzzy(made)]))
==============================================================================
