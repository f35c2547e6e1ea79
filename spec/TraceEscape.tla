---------------------------- MODULE TraceEscape ----------------------------
(* Texts escaped and unescaped by the implementation: escaping has to be   *)
(* step by step, character by character, the one recorded.                 *)
EXTENDS Text, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, pos, out, verdict
vars == <<case, pos, out, verdict>>

Init == case \in 1..Len(Cases) /\ pos = 0 /\ out = <<>> /\ verdict = "read"
\* Long texts in pieces of hundreds of characters
Piece(n) == IF n > 300 THEN 300 ELSE 1
Least(a, b) == IF a < b THEN a ELSE b
Step == /\ verdict = "read" /\ pos < Len(Cases[case].s)
        /\ pos' = Least(pos + Piece(Len(Cases[case].s)), Len(Cases[case].s))
        /\ out' = out \o Escape(SubSeq(Cases[case].s, pos + 1, pos'))
        /\ UNCHANGED <<case, verdict>>
Same(u, r) == /\ u.kind = r.kind
              /\ (u.kind = "ok") => u.text = r.text
              /\ (u.kind = "bad") => u.char = r.char
Finish == /\ verdict = "read" /\ pos = Len(Cases[case].s)
          /\ LET c == Cases[case]
                 d == IF c.e # out THEN "escaped form"
                      ELSE IF ~Same([kind |-> "ok", text |-> c.s, char |-> 0], c.ue)
                      THEN "unescaping does not undo escaping"
                      ELSE IF ~Same(Unescape(c.s), c.u) THEN "unescaping"
                      ELSE ""
             IN /\ PrintT(<<IF d = "" THEN "OK" ELSE "BAD", case, d, c.u.kind>>)
                /\ verdict' = IF d = "" THEN "ok" ELSE "bad"
          /\ UNCHANGED <<case, pos, out>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
NoDifference == verdict = "bad" => "x" \in DOMAIN Cases[case]
============================================================================
