---------------------------- MODULE TraceLayout ----------------------------
(* Pairs of documents with the same content in different layouts, with what*)
(* the implementation read in each of them. The machine reads both: it has *)
(* to find the same content (otherwise they are not such a pair, and there *)
(* is an error in who made them); then what was read has to be the same.   *)
EXTENDS PoReader, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES case, left, which, rdr, first, verdict
vars == <<case, left, which, rdr, first, verdict>>

WithoutLines(r) ==
    IF r.ok THEN [ok |-> TRUE, hdr |-> r.hdr, fuzzy |-> r.fuzzy,
                  ents |-> Map(r.ents, LAMBDA e : [e EXCEPT !.line = 0])]
    ELSE [ok |-> FALSE]

Init == /\ case \in 1..Len(Cases)
        /\ left = <<>> /\ which = "a" /\ rdr = InitReader /\ first = <<>> /\ verdict = "open"
Open == /\ verdict = "open"
        /\ left' = DocLines(IF which = "a" THEN Cases[case].a ELSE Cases[case].b)
        /\ rdr' = InitReader /\ verdict' = "read" /\ UNCHANGED <<case, which, first>>
Read == /\ verdict = "read" /\ left # <<>> /\ rdr.err = <<>>
        /\ rdr' = ReadLine(rdr, left[1]) /\ left' = Tail(left)
        /\ UNCHANGED <<case, which, first, verdict>>
AtEnd == verdict = "read" /\ ~(left # <<>> /\ rdr.err = <<>>)
Second == /\ AtEnd /\ which = "a"
          /\ first' = <<EndOfFile(rdr)>> /\ which' = "b" /\ verdict' = "open"
          /\ UNCHANGED <<case, left, rdr>>

Diff(a, b) ==
    IF ~a.ok /\ a.kind = "panic" THEN "panic"
    ELSE IF ~b.ok /\ b.kind = "panic" THEN "panic"
    ELSE IF WithoutLines(a) # WithoutLines(b) THEN "content depends on layout"
    ELSE IF a.ok /\ ~SameMeta(a.meta, b.meta) THEN "metadata depends on layout"
    ELSE ""
Finish == /\ AtEnd /\ which = "b"
          /\ LET e == EndOfFile(rdr)
                 d == Diff(Cases[case].ra, Cases[case].rb)
             IN /\ Assert(e.ok /\ first[1].ok
                          /\ WithoutLines(e) = WithoutLines(first[1])
                          /\ SameMeta(e.meta, first[1].meta),
                          <<"not layouts of the same content", case>>)
                /\ PrintT(<<IF d = "" THEN "OK" ELSE "BAD", case, d, Cases[case].via>>)
                /\ verdict' = IF d = "" THEN "ok" ELSE "bad"
          /\ UNCHANGED <<case, left, which, rdr, first>>

Next == Open \/ Read \/ Second \/ Finish
Spec == Init /\ [][Next]_vars
NoDifference == verdict = "bad" => "x" \in DOMAIN Cases[case]
=============================================================================
