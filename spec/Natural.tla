------------------------------ MODULE Natural ------------------------------
(* Natural order of names: white space does not count, runs of digits are  *)
(* compared as numbers unless one of them begins with zero, in which case  *)
(* they are compared digit by digit. And the canonical order of metadata.  *)
EXTENDS Text

RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i - 1

RECURSIVE NatFrom(_, _, _, _)
NatFrom(a, b, i0, j0) ==
    LET i == SkipWs(a, i0)
        j == SkipWs(b, j0)
    IN IF i > Len(a) THEN (IF j > Len(b) THEN 0 ELSE -1)
       ELSE IF j > Len(b) THEN 1
       ELSE IF IsDigit(a[i]) /\ IsDigit(b[j])
       THEN LET x == SubSeq(a, i, DigitsEnd(a, i))
                y == SubSeq(b, j, DigitsEnd(b, j))
                c == IF x[1] = 48 \/ y[1] = 48 THEN CmpText(x, y)
                     ELSE IF Len(x) # Len(y) THEN CmpInt(Len(x), Len(y))
                     ELSE CmpText(x, y)
            IN IF c # 0 THEN c ELSE NatFrom(a, b, i + Len(x), j + Len(y))
       ELSE IF a[i] # b[j] THEN CmpInt(a[i], b[j])
       ELSE NatFrom(a, b, i + 1, j + 1)
CmpNatural(a, b) == NatFrom(a, b, 1, 1)

\* Different names can be the same in natural order
CmpName(a, b) == LET c == CmpNatural(a, b) IN IF c # 0 THEN c ELSE CmpText(a, b)

WellKnown == Map(<<
    "Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date",
    "Last-Translator", "Language-Team", "Language", "MIME-Version", "Content-Type",
    "Content-Transfer-Encoding", "Plural-Forms" >>, T)

\* Metadata pairs in the order they are written
OrderedMeta(meta) ==
    LET known == SelectSeq(WellKnown, LAMBDA n : \E i \in 1..Len(meta) : meta[i][1] = n)
        IsOther(p) == \A i \in 1..Len(WellKnown) : WellKnown[i] # p[1]
    IN Map(known, LAMBDA n : meta[CHOOSE i \in 1..Len(meta) : meta[i][1] = n])
       \o SortBy(SelectSeq(meta, IsOther), LAMBDA p, q : CmpName(p[1], q[1]))
============================================================================
