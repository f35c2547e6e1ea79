------------------------------ MODULE MCDamage ------------------------------
(* Damaged images: good ones cut at some point, or with one or two of      *)
(* their numbers changed. Each one is printed with its outcome.            *)
EXTENDS Mo, Json
CONSTANTS Emit, MaxChanges, Wide

E0 == [id |-> <<>>, str |-> <<>>, pl |-> <<>>, strs |-> <<>>, ctx |-> <<>>]
Catalogs == <<
  [meta |-> <<>>, ents |-> <<>>],
  [meta |-> <<<<T("A"), T("b")>>>>, ents |-> << [E0 EXCEPT !.id = T("i"), !.str = <<T("s")>>] >>],
  [meta |-> <<>>, ents |-> << [E0 EXCEPT !.id = T("a"), !.ctx = <<T("c")>>, !.str = <<<<233>>>>],
                              [E0 EXCEPT !.id = T("b"), !.pl = <<T("p")>>, !.strs = <<T("x"), T("y")>>],
                              [E0 EXCEPT !.id = T("d"), !.str = <<<<>>>>] >>] >>

\* The usual image: tables, keys and values
RECURSIVE Places(_, _)
Places(ss, from) == IF ss = <<>> THEN <<>>
                    ELSE <<<<Len(ss[1]), from>>>> \o Places(Tail(ss), from + Len(ss[1]) + 1)
Usual(cat, be, rev) ==
    LET n == Len(cat.ents) + 1
        keys == <<<<>>>> \o Map(cat.ents, LAMBDA m : Utf8(Key(m)))
        vals == <<Utf8(MetaText(cat.meta))>> \o Map(cat.ents, LAMBDA m : Utf8(Value(m)))
        start == 28 + 16 * n
        rows == Places(keys \o vals, start)
        Nums(t) == Concat(Map(t, LAMBDA x : Word4(x, be)))
    IN MagicOf(be) \o Nums(<<rev, n, 28, 28 + 8 * n, 0, start>>)
       \o Concat(Map(rows, LAMBDA r : Nums(r)))
       \o Concat(Map(keys \o vals, LAMBDA t : t \o <<NUL>>))

VARIABLES cn, big, img, cut, hit, rd
vars == <<cn, big, img, cut, hit, rd>>
Init == /\ cn \in 1..Len(Catalogs) /\ big \in BOOLEAN
        /\ \E rev \in {0, 1} : img = Usual(Catalogs[cn], big, rev)
        /\ cut = FALSE /\ hit = <<>> /\ rd = InitMo

Fields == 0..(6 + 4 * (Len(Catalogs[cn].ents) + 1))
Extreme == { <<255, 255, 255, 255>>, <<0, 0, 0, 128>>, <<0, 0, 0, 1>> }
Values(f) ==
    LET now == Number(SubSeq(img, 4 * f + 1, 4 * f + 4), big)
        near == { Word4(x, FALSE) : x \in {0, 1, 2, Len(img) - 1, Len(img), Len(img) + 1}
                                     \cup (IF now < Huge THEN {now + 1} ELSE {})
                                     \cup (IF now > 0 /\ now < Huge THEN {now - 1} ELSE {}) }
    IN near \cup Extreme \cup (IF Wide THEN { Word4(x, FALSE) : x \in {3, 27, 28, 29, 44, 65536} } ELSE {})
WithField(f, q) ==
    SubSeq(img, 1, 4 * f) \o (IF big THEN Reverse(q) ELSE q) \o SubSeq(img, 4 * f + 5, Len(img))

Fresh == rd = InitMo
Cut == /\ Fresh /\ ~cut /\ hit = <<>>
       /\ \E n \in 0..(Len(img) - 1) : img' = SubSeq(img, 1, n) /\ cut' = TRUE
       /\ UNCHANGED <<cn, big, hit, rd>>
Damage == /\ Fresh /\ ~cut /\ Len(hit) < MaxChanges
          /\ \E f \in Fields :
               /\ (hit # <<>> => f > hit[Len(hit)])
               /\ \E q \in Values(f) : img' = WithField(f, q) /\ img' # img
               /\ hit' = Append(hit, f)
          /\ UNCHANGED <<cn, big, cut, rd>>
Read == /\ ~MoEnded(rd) /\ rd' = MoStep(img, rd) /\ UNCHANGED <<cn, big, img, cut, hit>>
Next == Cut \/ Damage \/ Read
Spec == Init /\ [][Next]_vars

Printed == (Emit /\ MoEnded(rd)) => PrintT(ToJson([b |-> img, r |-> MoOutcome(rd)]))
\* An image without damages is read
GoodIsRead == (MoEnded(rd) /\ ~cut /\ hit = <<>>) => rd.ph = "done"
\* One that was cut before the end of its last string is not
CutIsNoticed ==
    (MoEnded(rd) /\ cut) =>
      \A rev \in {0, 1} : LET full == Usual(Catalogs[cn], big, rev)
                          IN (StartsWith(full, img) /\ Len(img) < Len(full) - 1) => rd.ph = "failed"
\* Nothing that is read is out of the image
InsideOnly == \A i \in 1..Len(rd.kix) : (rd.ph = "done" => Inside(img, rd.kix[i]) /\ Inside(img, rd.vix[i]))
=============================================================================
