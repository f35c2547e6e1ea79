------------------------------ MODULE TraceMeta ------------------------------
(* Metadata recorded from the implementation: how it was written, and what *)
(* was read of what was written; and documents with header entries.        *)
EXTENDS PoRender, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, verdict
vars == <<case, verdict>>
Init == case \in 1..Len(Cases) /\ verdict = "open"

JudgeMeta(c) ==
    IF ~c.ok THEN "panic"
    ELSE LET o == c.o
             order == OrderedMeta(c.meta)
             lines == Map(order, MetaLine)
             value == Concat(Map(order, LAMBDA p : p[1] \o T(": ") \o p[2] \o <<LF>>))
             Read(m) == SameMeta(m, c.meta)
             Trimmed(s) == IF s # <<>> /\ Last1(s[1]) = LF THEN SubSeq(s[1], 1, Len(s[1]) - 1) ELSE OrEmpty(s)
             want == IF value = <<>> THEN <<>> ELSE SubSeq(value, 1, Len(value) - 1)
         IN IF o.po # lines THEN "lines of the PO file"
            ELSE IF o.mo # lines THEN "lines of the MO file"
            ELSE IF ~(Read(o.rpo) /\ Read(o.rmopo)) THEN "metadata read of the text"
            ELSE IF ~(Read(o.rmo) /\ Read(o.rbe) /\ Read(o.rpomo)) THEN "metadata read of the bytes"
            ELSE IF o.pe # lines \/ o.me # lines THEN "lines of the entry of the metadata"
            ELSE IF ~(Read(o.rpe) /\ Read(o.rme) /\ o.alone) THEN "metadata read of the text of its entry"
            ELSE IF o.ents # 0 THEN "metadata reported as a message"
            ELSE IF o.fuzzy # c.fuzzy \/ o.asz # c.fuzzy THEN "fuzzy mark"
            ELSE IF Trimmed(o.ase) # want \/ Trimmed(o.asm) # want THEN "metadata entry"
            ELSE ""
JudgeDoc(c) ==
    LET exp == Parse(c.d)
    IN IF ~exp.ok THEN (IF ~c.r.ok /\ c.r.kind = "panic" THEN "panic" ELSE "")
       ELSE IF ~c.r.ok THEN "rejected"
       ELSE IF ~SameMeta(exp.meta, c.r.meta) THEN "metadata of the document"
       ELSE IF exp.fuzzy # c.r.fuzzy THEN "fuzzy mark of the document"
       ELSE IF Len(exp.ents) # Len(c.r.ents) THEN "number of messages"
       ELSE ""
Finish == /\ verdict = "open"
          /\ LET c == Cases[case]
                 d == IF c.t = "meta" THEN JudgeMeta(c) ELSE JudgeDoc(c)
             IN /\ PrintT(<<IF d = "" THEN "OK" ELSE "BAD", case, d, c.t>>)
                /\ verdict' = IF d = "" THEN "ok" ELSE "bad"
          /\ UNCHANGED case
Next == Finish
Spec == Init /\ [][Next]_vars
NoDifference == verdict = "bad" => "x" \in DOMAIN Cases[case]
==============================================================================
