---------------------------- MODULE TraceCatalog ----------------------------
(* Histories of operations recorded from the implementation: each step has *)
(* the operation, what it returned and the messages of the file after it.  *)
(* Comparisons and ways of supplying a content are judged here as well.    *)
EXTENDS Catalog, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES case, stepno, file, verdict
vars == <<case, stepno, file, verdict>>
Init == /\ case \in 1..Len(Cases) /\ stepno = 0 /\ verdict = "open"
        /\ file = IF Cases[case].t = "history" THEN Cases[case].ents ELSE <<>>

\* Judgement of what an operation returned
JudgeViews(kind, ents, o) ==
    IF kind = "mo"
    THEN IF o.mo # At(ents, Positions(ents, MoIsTranslated)) THEN "translated messages of the MO file" ELSE ""
    ELSE LET v == Views(ents)
         IN IF o.tr # At(ents, v.tr) THEN "translated messages"
            ELSE IF o.un # At(ents, v.un) THEN "untranslated messages"
            ELSE IF o.obsl # At(ents, v.obs) THEN "obsolete messages"
            ELSE IF o.fz # At(ents, v.fz) THEN "fuzzy messages"
            ELSE IF o.isf # v.isf THEN "fuzzy marks"
            ELSE IF o.ist # v.tr THEN "translated marks"
            ELSE IF ~IsPercent(ents, o.pct) THEN "percentage"
            ELSE IF o.comp # CompiledFile(ents) THEN "compiled messages"
            ELSE ""
JudgeStep(c, ents, o, after) ==
    IF o.panic THEN "panic"
    ELSE IF o.now # after THEN "messages after " \o o.op
    ELSE IF o.rest # c.rest THEN "the rest of the file after " \o o.op
    ELSE IF o.op \in {"find", "find_id", "find_idctx"}
            /\ o.res # At(ents, Result(c.k, ents, o)) THEN "result of " \o o.op
    ELSE IF o.op = "views" THEN JudgeViews(c.k, ents, o)
    ELSE ""

Step == /\ verdict = "open" /\ Cases[case].t = "history" /\ stepno < Len(Cases[case].ops)
        /\ stepno' = stepno + 1
        /\ LET c == Cases[case]
               o == c.ops[stepno']
               after == Apply(c.k, file, o)
               d == JudgeStep(c, file, o, after)
           IN /\ file' = after
              /\ IF d = "" THEN verdict' = "open"
                 ELSE verdict' = "bad" /\ PrintT(<<"BAD", case, d, c.t>>)
        /\ UNCHANGED case

JudgeOrder(c) ==
    LET n == Len(c.ents)
        m == c.m
    IN IF c.panic THEN "panic"
       ELSE IF \E i \in 1..n : m[i][i] # 0 THEN "a message compared with itself"
       ELSE IF \E i, j \in 1..n : m[i][j] # -m[j][i] THEN "comparison the other way"
       ELSE IF \E i, j, k \in 1..n : m[i][j] <= 0 /\ m[j][k] <= 0 /\ m[i][k] > 0 THEN "transitivity"
       ELSE IF \E i, j \in 1..n : m[i][j] # CmpBy(c.k, c.sel, c.ents[i], c.ents[j]) THEN "comparison"
       ELSE ""

JudgeWays(c) ==
    LET exp == EndOfFile(FoldLeft(LAMBDA ps, l : IF ps.err # <<>> THEN ps ELSE ReadRawLine(ps, l),
                                  InitReader, DocLines(c.b)))
        Diff(out) == IF exp.ok \/ exp.kind # "decode" THEN OutcomeDiff(exp, out)
                     ELSE IF out.ok THEN "malformed document accepted"
                     ELSE IF out.kind = "panic" THEN "panic" ELSE ""
        bad == { i \in 1..Len(c.ways) : Diff(c.ways[i].r) # "" }
    IN IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE
                        IN Diff(c.ways[i].r) \o ", " \o c.ways[i].way
       ELSE IF \E i \in 1..Len(c.ways) : c.ways[i].r # c.ways[1].r THEN "not the same file"
       ELSE IF \E i \in 1..Len(c.ways) : c.ways[i].w # c.ways[i].asked THEN "wrap width"
       ELSE ""
JudgeMoWays(c) ==
    LET exp == MoOutcome(ReadMo(c.b))
        bad == { i \in 1..Len(c.ways) : MoDiff(exp, c.ways[i].r) # "" }
    IN IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE
                        IN MoDiff(exp, c.ways[i].r) \o ", " \o c.ways[i].way
       ELSE IF \E i \in 1..Len(c.ways) : c.ways[i].r # c.ways[1].r THEN "not the same file"
       ELSE IF \E i \in 1..Len(c.ways) : c.ways[i].w # c.ways[i].asked THEN "wrap width"
       ELSE ""

Finish == /\ verdict = "open"
          /\ (Cases[case].t = "history" => stepno = Len(Cases[case].ops))
          /\ LET c == Cases[case]
                 d == CASE c.t = "history" -> "" [] c.t = "order" -> JudgeOrder(c)
                        [] c.t = "ways" -> JudgeWays(c) [] c.t = "moways" -> JudgeMoWays(c)
             IN /\ PrintT(<<IF d = "" THEN "OK" ELSE "BAD", case, d, c.t>>)
                /\ verdict' = IF d = "" THEN "ok" ELSE "bad"
          /\ UNCHANGED <<case, stepno, file>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
NoDifference == verdict = "bad" => "x" \in DOMAIN Cases[case]
=============================================================================
