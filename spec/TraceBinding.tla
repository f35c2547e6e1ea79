---------------------------- MODULE TraceBinding ----------------------------
(* Sessions recorded from the Python module, each one done in Rust as well.*)
(* After each call the object must be the one of the specification, and    *)
(* its texts and bytes (digests of them) those of the Rust library.        *)
EXTENDS Binding, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES case, stepno, file, verdict
vars == <<case, stepno, file, verdict>>
None == 0
Init == /\ case \in 1..Len(Cases) /\ stepno = 0 /\ verdict = "open"
        /\ file = IF Cases[case].t = "session" THEN Object(Cases[case].start) ELSE None

Seen(c, ents, o) ==
    IF o.op \in {"find", "find_id", "find_idctx"} /\ o.res # At(ents, Result(c.k, ents, o))
    THEN "result of " \o o.op
    ELSE IF o.op = "views" /\ c.k = "po"
    THEN LET v == Views(ents)
         IN IF o.tr # At(ents, v.tr) \/ o.un # At(ents, v.un) THEN "translated messages"
            ELSE IF o.obsl # At(ents, v.obs) \/ o.fz # At(ents, v.fz) THEN "other views"
            ELSE IF o.isf # v.isf \/ o.ist # v.tr THEN "marks of the messages"
            ELSE IF ~IsPercent(ents, o.pct) THEN "percentage"
            ELSE ""
    ELSE IF o.op = "views" /\ o.ist # Positions(ents, MoIsTranslated) THEN "translated messages"
    ELSE IF o.op = "member" /\ o.in # IsMember(c.k, ents, o.e) THEN "membership"
    ELSE ""
\* All the ways of going over the file give the same messages
IsSequence(q, ents) ==
    /\ q.n = Len(ents) /\ q.past = 3
    /\ \A i, j \in 1..Len(q.ways) : q.ways[i] = q.ways[j]
\* Files are equal when their texts are, in all the ways of asking it
GoodEqualities(qs) == \A i \in 1..Len(qs) : \A j \in 1..3 : qs[i][j] = qs[i][4]
JudgeStep(c, before, o, after) ==
    IF o.exc # "" THEN "exception " \o o.exc
    ELSE IF ~SameObject(after, o.now) THEN "object after " \o o.op
    ELSE IF o.dig # o.rdig THEN "rendered after " \o o.op
    ELSE IF ~IsSequence(o.seq, o.now.ents) THEN "sequence after " \o o.op
    ELSE IF ~GoodEqualities(o.eq) THEN "equality after " \o o.op
    ELSE Seen(c, before.ents, o)
Step == /\ verdict = "open" /\ Cases[case].t = "session" /\ stepno < Len(Cases[case].ops)
        /\ stepno' = stepno + 1
        /\ LET c == Cases[case]
               o == c.ops[stepno']
               after == Call(c.k, file, o)
               d == JudgeStep(c, file, o, after)
           IN /\ file' = after
              /\ IF d = "" THEN verdict' = "open"
                 ELSE verdict' = "bad" /\ PrintT(<<"BAD", case, d, c.t>>)
        /\ UNCHANGED case

\* A document, an image or a text given to a function: what came of it in
\* both. Errors are of the module, with the same message
Exception == [pofile |-> "SyntaxError", mofile |-> "IOError", unescape |-> "EscapingError", escape |-> "none"]
JudgeCall(c) ==
    IF c.py.exc = "" THEN (IF ~c.rust.ok THEN "accepted only in Python"
                           ELSE IF c.py.v # c.rust.v THEN "other value" ELSE "")
    ELSE IF c.rust.ok THEN "refused only in Python"
    ELSE IF c.py.exc # Exception[c.fn] THEN "exception " \o c.py.exc
    ELSE IF c.py.msg # c.rust.msg THEN "other message"
    ELSE ""

Finish == /\ verdict = "open"
          /\ (Cases[case].t = "session" => stepno = Len(Cases[case].ops))
          /\ LET c == Cases[case]
                 d == IF c.t = "session" THEN "" ELSE JudgeCall(c)
             IN /\ PrintT(<<IF d = "" THEN "OK" ELSE "BAD", case, d, c.t>>)
                /\ verdict' = IF d = "" THEN "ok" ELSE "bad"
          /\ UNCHANGED <<case, stepno, file>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
NoDifference == verdict = "bad" => "x" \in DOMAIN Cases[case]
=============================================================================
