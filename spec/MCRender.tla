------------------------------ MODULE MCRender ------------------------------
(* An editor of a file: it adds messages and changes fields, up to a       *)
(* number of changes. Each file it can make is printed once, to be written *)
(* by the implementation.                                                  *)
EXTENDS PoRender, Json

CONSTANTS MaxChanges, MaxEntries,
          Rich     \* whether all the values are used

VARIABLES file,  \* the file
          made   \* changes made
vars == <<file, made>>

NL == <<LF>>
Texts == { T("a"), T("word and word"), T("end") \o NL, T("one") \o NL \o T("two words"),
           T("q\"") \o <<BACKSLASH>>, <<BACKSLASH, QUOTE>>, <<20013, 25991, SP, 23383>>, <<>> }
         \cup (IF Rich THEN { T(" lead"), T("trail "), NL, NL \o NL, <<TAB, 233, 769>>,
                              T("unbreakable-word/with.marks"), T("\\n"), <<8203, 13>>,
                              T("\"quoted\" text"), T("msgid \"x\""), T("#~ x") }
               ELSE {})
Comments == { T("c"), T("c d") \o NL \o T("e"), T("a long comment with words") }
            \cup (IF Rich THEN { T("x") \o NL \o NL \o T("y"), T("  i"), T("# h"), T(", fuzzy"),
                                 <<>>, T("~ msgid \"x\""), <<20013, 25991, 23383, 20013>> }
                  ELSE {})
Headers == { <<>>, T("h"), T("h") \o NL \o NL \o T("k l") }
References == { << <<T("f.c"), T("1")>> >>, << <<T("f.c"), <<>>>>, <<T("g.h"), T("22")>> >>,
                << <<T("f.c"), T("0")>>, <<T("f.c"), T("007")>>, << <<233>>, T("10")>> >>,
                [i \in 1..4 |-> <<T("dir/file.c"), Digits(i * 111)>>] }
Flags == { <<T("fuzzy")>>, <<T("c-format"), T("fuzzy")>>, <<T("x y")>> }
Pairs == { <<T("Language"), T("es")>>, <<T("X-2"), T("v w")>>, <<T("X-10"), <<>>>>,
           <<T("Content-Type"), T("text/plain; charset=UTF-8")>> }

OptTexts == { <<t>> : t \in Texts }
Change(e) ==
       { [e EXCEPT !.id = t] : t \in Texts } \cup { [e EXCEPT !.str = t] : t \in OptTexts }
  \cup { [e EXCEPT !.ctx = t] : t \in OptTexts } \cup { [e EXCEPT !.pl = t] : t \in OptTexts }
  \cup { [e EXCEPT !.strs = Append(@, t)] : t \in Texts }
  \cup { [e EXCEPT !.obs = TRUE] }
  \cup { [e EXCEPT !.com = <<t>>] : t \in Comments } \cup { [e EXCEPT !.tcom = <<t>>] : t \in Comments }
  \cup { [e EXCEPT !.occ = o] : o \in References } \cup { [e EXCEPT !.flags = g] : g \in Flags }
  \cup { [e EXCEPT !.pid = t] : t \in OptTexts } \cup { [e EXCEPT !.ppl = t] : t \in OptTexts }
  \cup { [e EXCEPT !.pctx = t] : t \in OptTexts }

Init == /\ file = [hdr |-> <<>>, meta |-> <<>>, fuzzy |-> FALSE, ents |-> <<>>]
        /\ made = 0
Step(g) == /\ made < MaxChanges /\ g # file /\ file' = g /\ made' = made + 1
Add == /\ Len(file.ents) < MaxEntries
       /\ Step([file EXCEPT !.ents = Append(@, [NewEntry(0) EXCEPT !.id = T("m")])])
Edit == \E i \in 1..Len(file.ents) : \E e \in Change(file.ents[i]) : Step([file EXCEPT !.ents[i] = e])
Head1 == \/ \E h \in Headers : Step([file EXCEPT !.hdr = <<h>>])
         \/ Step([file EXCEPT !.fuzzy = TRUE])
         \/ \E p \in Pairs : /\ \A i \in 1..Len(file.meta) : file.meta[i] # p
                             /\ Step([file EXCEPT !.meta = Append(@, p)])
Next == Add \/ Edit \/ Head1
Spec == Init /\ [][Next]_vars

\* The number of changes is not part of the file
View == file
Printed == PrintT(ToJson([f |-> file]))

(***************************************************************************)
(* The text of a file written in lines that are not wrapped                *)
(***************************************************************************)
Unwrapped(it) ==
    CASE it.t = "fixed" -> it.text
      [] it.t = "str" -> it.pre \o it.kw \o it.idx \o <<SP>> \o Quote1(it.text)
      [] it.t = "com" -> it.pre \o it.text
      [] it.t = "refs" -> P_ref \o Join(it.words, <<SP>>)
Text1(g) == Concat(Map(FileItems(g), LAMBDA it : Append(Unwrapped(it), LF)))
NoLong(g) == Map(g.ents, LAMBDA e : FALSE)

\* It can be read, and reading gives the content
ReadsBack == ReloadDiff(Reloaded(file), Parse(Text1(file)), NoLong(file)) = ""
\* What was read is written in the same way when everything was kept
Fixpoint == LET g == Parse(Text1(file))
            IN Kept(file) => Text1(g) = Text1(file)
\* Reading loses nothing the second time
LosesOnce == LET g == Reloaded(file) IN SameMeta(Reloaded(g).meta, g.meta)
                                     /\ Reloaded(g).ents = g.ents /\ Reloaded(g).hdr = g.hdr
=============================================================================
