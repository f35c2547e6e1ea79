----------------------------- MODULE MCEscape -----------------------------
(* All the short texts over an alphabet, with their escaped form and what  *)
(* unescaping them gives.                                                  *)
EXTENDS Text, Json

CONSTANTS Alphabet, MaxLen, Emit

\* Characters for an alphabet with most of them
Characters == (0..1023) \cup {8232, 8233, 65279, 65536, 1114111}

VARIABLE txt
Init == txt = <<>>
Out(x) == [s |-> x, e |-> Escape(x), u |-> Unescape(x)]
Next == /\ Len(txt) < MaxLen
        /\ \E c \in Alphabet : txt' = Append(txt, c)
        /\ Emit => PrintT(ToJson(Out(txt')))
Spec == Init /\ [][Next]_txt

(***************************************************************************)
(* Unescaping undoes escaping                                              *)
(***************************************************************************)
Undoes == Unescape(Escape(txt)) = [kind |-> "ok", text |-> txt, char |-> 0]

\* Positions of the backslashes that begin an escape: those after an even
\* number of backslashes
Begins(t) == { i \in 1..Len(t) : t[i] = BACKSLASH /\ ~InsideEscape(t, i - 1) }
Clean == LET e == Escape(txt)
         IN /\ \A i \in 1..Len(e) :
                 /\ e[i] \notin {LF, CR, TAB}
                 /\ e[i] = QUOTE => (i > 1 /\ (i - 1) \in Begins(e))
            /\ \A i \in Begins(e) : i < Len(e) /\ e[i + 1] \in EscapeLetters

\* Unescaping fails exactly when some backslash does not begin an escape,
\* and says what is wrong with the first of them
Wrong(t) == { i \in Begins(t) : i = Len(t) \/ t[i + 1] \notin EscapeLetters }
FailsRight ==
    LET u == Unescape(txt)
        w == Wrong(txt)
    IN IF w = {} THEN u.kind = "ok" /\ Len(u.text) = Len(txt) - Cardinality(Begins(txt))
       ELSE LET i == CHOOSE x \in w : \A y \in w : x <= y
            IN IF i = Len(txt) THEN u.kind = "end"
               ELSE u.kind = "bad" /\ u.char = txt[i + 1]

\* A text that is the escaped form of nothing is not produced
IsRaw(i) == \/ txt[i] \in (Escapable \ {BACKSLASH, QUOTE})
            \/ (txt[i] = QUOTE /\ ~(i > 1 /\ (i - 1) \in Begins(txt)))
Canonical == LET u == Unescape(txt)
             IN (u.kind = "ok" /\ ~(\E i \in 1..Len(txt) : IsRaw(i))) => Escape(u.text) = txt
\* Both work piece by piece
Pieces == \A n \in 0..Len(txt) :
            Escape(txt) = Escape(SubSeq(txt, 1, n)) \o Escape(SubSeq(txt, n + 1, Len(txt)))
============================================================================
