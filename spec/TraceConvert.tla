---------------------------- MODULE TraceConvert ----------------------------
(* Conversions recorded from the implementation: after each operation, the  *)
(* messages at hand, their keys and the files made of them.                 *)
EXTENDS Convert, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES case, stepno, hand, verdict
vars == <<case, stepno, hand, verdict>>
Init == /\ case \in 1..Len(Cases) /\ stepno = 0 /\ verdict = "open"
        /\ hand = [po |-> NewMsg, mo |-> OnlyMo(NewMsg)]

Errs(s) == { <<u.kind, u.char>> : u \in Errors(s.po) }
Judge(o, before, after) ==
    IF o.panic THEN "panic in " \o o.op
    ELSE IF o.po # after.po THEN "PO message after " \o o.op
    ELSE IF o.mo # after.mo THEN "MO message after " \o o.op
    ELSE IF o.pkey # SearchKey(after.po) THEN "key of the PO message"
    ELSE IF o.mkey # SearchKey(after.mo) THEN "key of the MO message"
    ELSE IF o.op = "unesc" /\ o.err # <<>> /\ o.err \notin Errs(before) THEN "error of unescaping"
    ELSE IF o.op = "unesc" /\ o.err = <<>> /\ Errs(before) # {} THEN "wrong escape accepted"
    ELSE IF o.op = "list" /\ o.pf # PoList(after) THEN "PO file of messages"
    ELSE IF o.op = "list" /\ o.mf # MoList(after) THEN "MO file of messages"
    ELSE IF o.op = "list" /\ o.cf # Compiling(after, o.n) THEN "compiled file"
    ELSE IF ~o.shown THEN "text of the messages"
    ELSE ""
Step == /\ verdict = "open" /\ stepno < Len(Cases[case].ops)
        /\ stepno' = stepno + 1
        /\ LET o == Cases[case].ops[stepno']
               after == Do(hand, o)
               d == Judge(o, hand, after)
           IN /\ hand' = after
              /\ IF d = "" THEN verdict' = "open"
                 ELSE verdict' = "bad" /\ PrintT(<<"BAD", case, d, o.op>>)
        /\ UNCHANGED case
Finish == /\ verdict = "open" /\ stepno = Len(Cases[case].ops)
          /\ PrintT(<<"OK", case, "", "convert">>)
          /\ verdict' = "ok" /\ UNCHANGED <<case, stepno, hand>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
NoDifference == verdict = "bad" => "x" \in DOMAIN Cases[case]
=============================================================================
