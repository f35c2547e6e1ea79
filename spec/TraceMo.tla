------------------------------ MODULE TraceMo ------------------------------
(* Images written by the implementation (M01), what it read of images      *)
(* (M02, M03) and catalogs compiled by it (M04). Images are read step by   *)
(* step by the machine.                                                    *)
EXTENDS Mo, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP

VARIABLES case, rd, verdict
vars == <<case, rd, verdict>>
Init == case \in 1..Len(Cases) /\ rd = InitMo /\ verdict = "open"

Read == /\ verdict = "open" /\ Prop # "M01" /\ Cases[case].t # "panic" /\ ~MoEnded(rd)
        /\ rd' = MoStep(Cases[case].b, rd) /\ UNCHANGED <<case, verdict>>

\* What the catalog of a file has to be
Catalog(f, be, rev) == [ok |-> TRUE, meta |-> f.meta, ents |-> Map(f.ents, Compiled),
                        be |-> be, rev |-> rev]

JudgeWritten(c) ==
    LET d == MoDiff(Catalog(c.f, c.be, c.rev), c.r)
        own == MoDiff(Catalog(c.f, c.be, c.rev), MoOutcome(rd))
    IN IF d # "" THEN d
       ELSE IF c.again # c.b THEN "written again it is not the same"
       ELSE IF own # "" THEN "other readers: " \o own
       ELSE ""
\* Messages looked up in the catalog: found is what each message gives
JudgeCompiled(c) ==
    LET sel == Selected(c.f.ents)
        cat == [meta |-> c.f.meta, ents |-> sel]
        d == MoDiff(Catalog(cat, c.be, 0), c.r)
        Good(i, found) == IF Translated(c.f.ents[i])
                          THEN Len(found) = 1 /\ Meaning(found[1]) = Compiled(c.f.ents[i])
                          ELSE found = <<>>
    IN IF d # "" THEN d
       ELSE IF MoDiff(Catalog(cat, c.be, 0), MoOutcome(rd)) # "" THEN "other readers"
       ELSE IF \E i \in 1..Len(c.f.ents) : ~(Good(i, c.found[i]) /\ Good(i, c.api[i]))
       THEN "message looked up"
       ELSE IF ~c.back.ok THEN "the text is not accepted"
       ELSE IF ~SameMeta(c.f.meta, c.back.meta) THEN "metadata of the text"
       ELSE IF ~SameBag(Map(sel, Compiled), Map(c.back.ents, Compiled)) THEN "messages of the text"
       ELSE ""

Judge(c) ==
    IF c.t = "panic" THEN "panic"
    ELSE CASE Prop = "M01" -> ImageDiff(c.b, c.f, c.be, c.rev)
           [] Prop = "M02" /\ c.t = "write" -> JudgeWritten(c)
           [] Prop = "M04" -> JudgeCompiled(c)
           [] OTHER -> MoDiff(MoOutcome(rd), c.r)

Finish == /\ verdict = "open" /\ (Prop = "M01" \/ Cases[case].t = "panic" \/ MoEnded(rd))
          /\ LET d == Judge(Cases[case])
             IN /\ PrintT(<<IF d = "" THEN "OK" ELSE "BAD", case, d,
                            IF rd.ph = "failed" THEN rd.kind ELSE Cases[case].t>>)
                /\ verdict' = IF d = "" THEN "ok" ELSE "bad"
          /\ UNCHANGED <<case, rd>>
Next == Read \/ Finish
Spec == Init /\ [][Next]_vars
NoDifference == verdict = "bad" => "x" \in DOMAIN Cases[case]
=============================================================================
