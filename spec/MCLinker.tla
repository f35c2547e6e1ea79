------------------------------ MODULE MCLinker ------------------------------
(* A linker of MO images: it places the tables and the strings of a catalog*)
(* one by one. Up to MaxOdd times it leaves a gap, takes a part before its *)
(* turn or shares the place of an equal string. Each finished image is printed with what has to big read of it.   *)
EXTENDS Mo, Json

CONSTANTS Emit, MaxOdd, Catalogs

E0 == [id |-> <<>>, str |-> <<>>, pl |-> <<>>, strs |-> <<>>, ctx |-> <<>>]
AllCatalogs == <<
  [meta |-> <<<<T("A"), T("b")>>>>, ents |-> <<>>],
  [meta |-> <<>>, ents |-> << [E0 EXCEPT !.id = T("i"), !.str = <<T("s")>>] >>],
  [meta |-> <<<<T("X"), T("y: z")>>, <<T("W"), <<>>>>>>,
   ents |-> << [E0 EXCEPT !.id = T("i"), !.ctx = <<T("c")>>, !.pl = <<T("p")>>,
                          !.strs = <<<<233>>, T("s")>>] >>],
  [meta |-> <<>>, ents |-> << [E0 EXCEPT !.id = T("b"), !.str = <<T("t")>>, !.ctx = <<<<>>>>],
                              [E0 EXCEPT !.id = T("a"), !.str = <<T("t")>>] >>],
  [meta |-> <<<<T("N"), T("m")>>>>,
   ents |-> << [E0 EXCEPT !.id = T("z"), !.pl = <<<<>>>>, !.strs = <<<<>>, <<>>>>],
               [E0 EXCEPT !.id = <<8364>>, !.str = <<<<128512>>>>] >>]
  >>

VARIABLES cn,    \* catalog
          strgs, \* its strings: keys and then values
          big, rvn,
          todo,  \* parts not placed: tables and numbers of strings
          body,  \* bytes after the header
          spot,  \* places of the parts
          odd,   \* oddities so far
          img    \* the image when it is finished
vars == <<cn, strgs, big, rvn, todo, body, spot, odd, img>>

\* Strings of a catalog: keys and then values
Strings(cat) ==
    LET keys == <<<<>>>> \o Map(cat.ents, LAMBDA m : Utf8(Key(m)))
        vals == <<Utf8(MetaText(cat.meta))>> \o Map(cat.ents, LAMBDA m : Utf8(Value(m)))
    IN keys \o vals
Count(cat) == Len(cat.ents) + 1
HashSize == 3
Keys == -3
Values == -2
HashTable == -1
First(p) == \A q \in todo : p <= q

Init == /\ cn \in Catalogs /\ big \in BOOLEAN /\ rvn \in {0, 1}
        /\ strgs = TLCEval(Strings(AllCatalogs[cn]))
        /\ \E hash \in {{}, {HashTable}} :
             todo = {Keys, Values} \cup hash \cup (1..Len(strgs))
        /\ body = <<>> /\ spot = <<>> /\ odd = 0 /\ img = <<>>

\* Tables are written spot the end, here their place is kept
Part(p) == IF p \in {Keys, Values} THEN [i \in 1..(8 * Count(AllCatalogs[cn])) |-> 0]
           ELSE IF p = HashTable THEN [i \in 1..(4 * HashSize) |-> 7]
           ELSE strgs[p] \o <<NUL>>
Place(p, gap) ==
    /\ todo' = todo \ {p}
    /\ spot' = Append(spot, <<p, 28 + Len(body) + Len(gap)>>)
    /\ body' = body \o gap \o Part(p)
    /\ odd' = odd + (IF gap = <<>> THEN 0 ELSE 1) + (IF First(p) THEN 0 ELSE 1)
    /\ odd' <= MaxOdd
    /\ UNCHANGED <<cn, strgs, big, rvn, img>>
\* A string already placed
Share(p) ==
    /\ p > 0
    /\ \E i \in 1..Len(spot) :
         /\ spot[i][1] > 0
         /\ strgs[spot[i][1]] = strgs[p]
         /\ spot' = Append(spot, <<p, spot[i][2]>>)
    /\ todo' = todo \ {p} /\ odd' = odd + 1 /\ odd' <= MaxOdd
    /\ UNCHANGED <<cn, strgs, big, rvn, body, img>>

PlaceOf(p) == LET s == SelectSeq(spot, LAMBDA x : x[1] = p) IN IF s = <<>> THEN 0 ELSE s[1][2]
Image ==
    LET cat == AllCatalogs[cn]
        n == Count(cat)
        Table(from) == Concat([i \in 1..n |-> Word4(Len(strgs[from + i]), big)
                                              \o Word4(PlaceOf(from + i), big)])
        kt == PlaceOf(Keys)
        vt == PlaceOf(Values)
        ht == PlaceOf(HashTable)
        header == MagicOf(big) \o Word4(rvn, big) \o Word4(n, big) \o Word4(kt, big) \o Word4(vt, big)
                  \o Word4(IF ht = 0 THEN 0 ELSE HashSize, big) \o Word4(ht, big)
        Patch(b, t, table) == SubSeq(b, 1, t - 28) \o table \o SubSeq(b, t - 28 + Len(table) + 1, Len(b))
    IN header \o Patch(Patch(body, kt, Table(0)), vt, Table(n))

Gaps == { <<>>, <<0>>, <<65, 66, 67>> }
Next == \/ \E p \in todo : \E g \in Gaps : Place(p, g)
        \/ \E p \in todo : Share(p)
        \/ todo = {} /\ img = <<>> /\ img' = Image /\ UNCHANGED <<cn, strgs, big, rvn, todo, body, spot, odd>>
Spec == Init /\ [][Next]_vars

Finished == img # <<>>
Expected == [ok |-> TRUE, meta |-> AllCatalogs[cn].meta,
             ents |-> Map(AllCatalogs[cn].ents, Compiled), be |-> big, rev |-> rvn]
Printed == (Emit /\ Finished) => PrintT(ToJson([b |-> img, r |-> Expected]))

\* Any image has the content of its catalog
ReadsCatalog ==
    Finished => LET o == MoOutcome(ReadMo(img))
                IN o.ok /\ SameMeta(o.meta, Expected.meta) /\ o.ents = Expected.ents
                   /\ o.be = big /\ o.rev = rvn
\* When nothing is shared it is a good image
GoodImage ==
    (Finished /\ \A i, j \in 1..Len(spot) : i # j => spot[i][2] # spot[j][2])
        => ImageDiff(img, AllCatalogs[cn], big, rvn) = ""
=============================================================================
