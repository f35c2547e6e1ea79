------------------------------ MODULE MCWriter ------------------------------
(* The writer with any choice of breaks, and a reader of what it writes.   *)
(* Whatever the widths of the characters and the rules of line breaking,   *)
(* what is read is the content of the file: breaks can be anywhere but     *)
(* inside of escapes.                                                      *)
EXTENDS PoRender

VARIABLES fileno, \* number of the file
          items,  \* items not written yet
          off,    \* position in the first item
          long,   \* whether some comment was broken
          rdr      \* reader of what was written
vars == <<fileno, items, off, long, rdr>>

E0 == NewEntry(0)
Body == <<QUOTE, 97, SP, BACKSLASH, LF, SP, 98, LF>>
Files == <<
  [hdr |-> <<T("h") \o <<LF>> \o T("k")>>, meta |-> <<<<T("X"), T("v: w")>>>>, fuzzy |-> TRUE,
   ents |-> << [E0 EXCEPT !.id = Body, !.str = <<Body>>] >>],
  [hdr |-> <<>>, meta |-> <<>>, fuzzy |-> FALSE,
   ents |-> << [E0 EXCEPT !.id = T("o"), !.obs = TRUE, !.strs = <<Body, <<LF>>>>, !.pl = <<T("p q")>>,
                          !.flags = <<T("fuzzy")>>, !.pid = <<T("z y")>>],
               [E0 EXCEPT !.id = <<>>, !.ctx = <<Body>>, !.tcom = <<T("a b c")>>,
                          !.com = <<T("d e") \o <<LF>> \o T("f")>>] >>],
  [hdr |-> <<<<>>>>, meta |-> <<>>, fuzzy |-> FALSE,
   ents |-> << [E0 EXCEPT !.pid = <<Body>>, !.pctx = <<<<LF>>>>, !.ppl = <<T("pp p")>>,
                          !.occ = <<<<T("a"), T("1")>>, <<T("b"), <<>>>>, <<T("c.d"), T("22")>>>>,
                          !.str = <<<<>>>>],
               [E0 EXCEPT !.id = T("o") , !.obs = TRUE, !.ctx = <<T("x y")>>, !.str = <<T("# z")>>],
               [E0 EXCEPT !.tcom = <<T("# x  y")>>, !.com = <<T("~ m \"")>>] >>]
  >>

Init == /\ fileno \in 1..Len(Files) /\ items = FileItems(Files[fileno]) /\ off = -1
        /\ long = FALSE /\ rdr = InitReader

Wrote(line) == rdr' = ReadLine(rdr, line)
NextItem == items' = Tail(items) /\ off' = -1
SameItem(o) == items' = items /\ off' = o

WriteFixed == /\ items # <<>> /\ items[1].t = "fixed"
              /\ Wrote(items[1].text) /\ NextItem /\ UNCHANGED <<fileno, long>>
StrWhole == /\ items # <<>> /\ items[1].t = "str" /\ off = -1
            /\ LET it == items[1]
               IN Wrote(it.pre \o it.kw \o it.idx \o <<SP>> \o Quote1(it.text))
            /\ NextItem /\ UNCHANGED <<fileno, long>>
StrBegin == /\ items # <<>> /\ items[1].t = "str" /\ off = -1
            /\ LET it == items[1]
               IN Wrote(it.pre \o it.kw \o it.idx \o <<SP, QUOTE, QUOTE>>)
            /\ SameItem(0) /\ UNCHANGED <<fileno, long>>
StrPiece == /\ items # <<>> /\ items[1].t = "str" /\ off >= 0
            /\ LET it == items[1]
                   m == Len(it.text)
               IN \E b \in 0..m :
                    /\ (b > off \/ m = 0) /\ ~InsideEscape(it.text, b)
                    /\ Wrote(it.pre \o Quote1(SubSeq(it.text, off + 1, b)))
                    /\ IF b = m THEN NextItem ELSE SameItem(b)
            /\ UNCHANGED <<fileno, long>>
ComWhole == /\ items # <<>> /\ items[1].t = "com" /\ off = -1
            /\ Wrote(items[1].pre \o items[1].text) /\ NextItem /\ UNCHANGED <<fileno, long>>
ComPiece == /\ items # <<>> /\ items[1].t = "com"
            /\ LET it == items[1]
                   m == Len(it.text)
                   a == IF off = -1 THEN 0 ELSE off
               IN \E b \in (a + 1)..m :
                    LET p == TrimEnd(SubSeq(it.text, a + 1, b))
                    IN /\ p # <<>> /\ Wrote(it.pre \o p)
                       /\ IF AllWs(it.text, b) THEN NextItem ELSE SameItem(b)
            /\ long' = TRUE /\ UNCHANGED fileno
RefsLine == /\ items # <<>> /\ items[1].t = "refs"
            /\ LET it == items[1]
                   m == Len(it.words)
                   a == IF off = -1 THEN 0 ELSE off
               IN \E b \in (a + 1)..m :
                    /\ Wrote(P_ref \o Join(SubSeq(it.words, a + 1, b), <<SP>>))
                    /\ IF b = m THEN NextItem ELSE SameItem(b)
            /\ UNCHANGED <<fileno, long>>
Next == WriteFixed \/ StrWhole \/ StrBegin \/ StrPiece \/ ComWhole \/ ComPiece \/ RefsLine
Spec == Init /\ [][Next]_vars

\* Line numbers depend on the breaks
View == <<fileno, items, off, long, [rdr EXCEPT !.n = IF rdr.n > 0 THEN 1 ELSE 0, !.cur.line = 0,
                                          !.ents = Map(@, LAMBDA e : [e EXCEPT !.line = 0])]>>

NeverWrong == rdr.err = <<>>
Content == items = <<>> =>
             ReloadDiff(Reloaded(Files[fileno]), EndOfFile(rdr),
                        [j \in 1..Len(Files[fileno].ents) |-> long]) = ""
=============================================================================
