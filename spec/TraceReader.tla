---------------------------- MODULE TraceReader ----------------------------
(* Documents read by the implementation, checked against the machine: each *)
(* recorded document is read line by line, and at its end the outcome must *)
(* be the recorded one.                                                    *)
EXTENDS PoReader, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP

\* The lines of all the documents
Lines == Map(Cases, LAMBDA c : DocLines(IF c.t = "bytes" THEN c.b ELSE c.d))

VARIABLES case,   \* number of the case
          rdr,    \* state of the reader, that knows how many lines it read
          verdict \* "open", "ok" or "bad"
vars == <<case, rdr, verdict>>

Init == /\ case \in 1..Len(Cases)
        /\ rdr = InitReader /\ verdict = "open"

More == rdr.n < Len(Lines[case]) /\ rdr.err = <<>>
Read == /\ verdict = "open" /\ More
        /\ rdr' = IF Cases[case].t = "bytes" THEN ReadRawLine(rdr, Lines[case][rdr.n + 1])
                  ELSE ReadLine(rdr, Lines[case][rdr.n + 1])
        /\ UNCHANGED <<case, verdict>>

Judge(exp, out) ==
    CASE Prop = "P01" -> IF exp.ok THEN OutcomeDiff(exp, out) ELSE ""
      [] Prop = "P03" -> IF exp.ok THEN "" ELSE OutcomeDiff(exp, out)
      [] Prop = "P02" -> IF ~out.ok /\ out.kind = "panic" THEN "panic"
                         ELSE IF ~exp.ok /\ exp.kind = "decode" /\ out.ok
                         THEN "content that can not be decoded accepted"
                         ELSE ""

Finish == /\ verdict = "open" /\ ~More
          /\ LET exp == EndOfFile(rdr)
                 d == Judge(exp, Cases[case].r)
             IN /\ PrintT(<<IF d = "" THEN "OK" ELSE "BAD", case, d,
                            IF exp.ok THEN "file" ELSE exp.kind>>)
                /\ verdict' = IF d = "" THEN "ok" ELSE "bad"
          /\ UNCHANGED <<case, rdr>>

Next == Read \/ Finish
Spec == Init /\ [][Next]_vars
\* Cases with a field x were corrupted on purpose
NoDifference == verdict = "bad" => "x" \in DOMAIN Cases[case]
============================================================================
