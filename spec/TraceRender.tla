---------------------------- MODULE TraceRender ----------------------------
(* Rendered files and messages, recorded from the implementation, taken    *)
(* line by line by the writer of PoRender (S03); with what was read of the *)
(* text (S01) and the texts of other renderings (S02).                     *)
EXTENDS PoRender, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP

VARIABLES case,   \* number of the case
          item,   \* number of the item that is being written
          offs,   \* positions in it
          taken,  \* lines taken
          verdict \* "open", "take", "ok" or "bad"
vars == <<case, item, offs, taken, verdict>>

ItemsOf(c) == CASE c.t = "file" -> FileItems(c.f)
                [] c.t = "entry" -> EntryItems(c.f)
                [] c.t = "mofile" -> MoFileItems(c.f)
                [] c.t = "moentry" -> MessageItems(c.f, <<>>)

\* Lines of a text, each of them ended by a newline
EndsWell(s) == s # <<>> /\ Last1(s) = LF
Lines(s) == LET p == Split(s, LF) IN SubSeq(p, 1, Len(p) - 1)

\* What there is to write in each case, and the lines
Work == IF Prop # "S03" THEN <<>>
        ELSE Map(Cases, LAMBDA c :
               IF ~c.ok THEN [items |-> <<>>, facts |-> <<>>, lines |-> <<>>]
               ELSE LET its == ItemsOf(c)
                    IN [items |-> its, facts |-> Map(its, LAMBDA i : Facts(i, c.tab)),
                        lines |-> Lines(c.d)])

Say(d, tag) == /\ PrintT(<<IF d = "" THEN "OK" ELSE "BAD", case, d, tag>>)
               /\ verdict' = IF d = "" THEN "ok" ELSE "bad"

Init == /\ case \in 1..Len(Cases)
        /\ item = 1 /\ offs = {-1} /\ taken = 0 /\ verdict = "open"

(***************************************************************************)
(* S03: lines                                                              *)
(***************************************************************************)
Open == /\ verdict = "open" /\ Prop = "S03"
        /\ IF Cases[case].ok /\ EndsWell(Cases[case].d) THEN verdict' = "take"
           ELSE Say(IF Cases[case].ok THEN "end of the text" ELSE "panic", Cases[case].t)
        /\ UNCHANGED <<case, item, offs, taken>>
More == taken < Len(Work[case].lines) /\ item <= Len(Work[case].items)
Take == /\ verdict = "take" /\ More
        /\ LET this == Work[case].items[item]
               next == Takes(this, Work[case].facts[item], offs, Work[case].lines[taken + 1],
                             Cases[case].w)
           IN IF next = {}
              THEN /\ Say("line that does not follow: " \o this.t, Cases[case].t)
                   /\ UNCHANGED <<item, offs, taken>>
              ELSE /\ taken' = taken + 1 /\ verdict' = verdict
                   /\ IF Done \in next THEN item' = item + 1 /\ offs' = {-1}
                      ELSE item' = item /\ offs' = next
        /\ UNCHANGED case
Close == /\ verdict = "take" /\ ~More
         /\ Say(IF item <= Len(Work[case].items) THEN "lines are missing"
                ELSE IF taken < Len(Work[case].lines) THEN "lines after the end" ELSE "",
                Cases[case].t)
         /\ UNCHANGED <<case, item, offs, taken>>

(***************************************************************************)
(* S01 and S02: texts                                                      *)
(***************************************************************************)
LongEntry(e, tab, w) ==
    \E o \in {e.com, e.tcom} :
      LET ls == IF o = <<>> THEN <<>> ELSE Split(o[1], LF)
      IN \E i \in 1..Len(ls) : ~ComFits(Info(tab, ls[i]), w)
LongEntries(c) == Map(Active(c.f.ents) \o Obsolete(c.f.ents),
                      LAMBDA e : LongEntry(e, c.tab, c.w))

\* Groups of lines separated by blank ones
Blocks(ls) == Split(ls, <<>>)
ReadBlock(b) == FoldLeft(LAMBDA ps, l : IF ps.err # <<>> THEN ps ELSE ReadLine(ps, l),
                         InitReader, b)
IsMessage(b, e) ==
    LET ps == ReadBlock(b)
        u == UnescapedEntry(ps.cur)
    IN /\ ps.err = <<>> /\ ps.ents = <<>> /\ u # <<>>
       /\ u[1].id = e.id /\ u[1].ctx = e.ctx /\ u[1].obs = e.obs
\* Comments, the mark, and an entry without msgid
IsHead(b, fuzzy) ==
    LET ps == ReadBlock(b)
    IN /\ ps.err = <<>> /\ ps.ents = <<>> /\ ps.idread /\ ~ps.cur.obs
       /\ ps.hdr # <<>> /\ ps.cur.id = <<>> /\ ps.cur.ctx = <<>>
       /\ ps.cur.tcom = <<>> /\ IsFuzzy(ps.cur) = fuzzy
Structure(c) ==
    LET es == Active(c.f.ents) \o Obsolete(c.f.ents)
        bs == Blocks(Lines(c.d))
    IN IF ~EndsWell(c.d) THEN "end of the text"
       ELSE IF \E i \in 1..Len(bs) : bs[i] = <<>> THEN "blank lines"
       ELSE IF Len(bs) # Len(es) + 1 THEN "number of blocks"
       ELSE IF ~IsHead(bs[1], c.f.fuzzy) THEN "first block"
       ELSE IF \E i \in 1..Len(es) : ~IsMessage(bs[i + 1], es[i]) THEN "order of the messages"
       ELSE ""

Judge(c) ==
    IF ~c.ok THEN "panic"
    ELSE IF Prop = "S01" THEN ReloadDiff(Reloaded(c.f), c.r, LongEntries(c))
    ELSE IF c.same # <<>> /\ \E i \in 1..Len(c.same) : c.same[i] # c.d
    THEN "equal contents are written in different ways"
    ELSE IF ~(\E i \in 1..Len(c.f.ents) : LongEntry(c.f.ents[i], c.tab, c.w))
            /\ Kept(c.f) /\ c.d2 # c.d
    THEN "the second text is not the first one"
    ELSE IF c.d3 # c.d2 THEN "the third text is not the second one"
    ELSE Structure(c)

Finish == /\ verdict = "open" /\ Prop \in {"S01", "S02"}
          /\ Say(Judge(Cases[case]), Cases[case].t)
          /\ UNCHANGED <<case, item, offs, taken>>

Next == Open \/ Take \/ Close \/ Finish
Spec == Init /\ [][Next]_vars
NoDifference == verdict = "bad" => "x" \in DOMAIN Cases[case]
============================================================================
