------------------------------- MODULE MCMeta -------------------------------
(* Histories of changes in the metadata of a file, printed with the lines  *)
(* that have to be written after them.                                     *)
EXTENDS PoRender, Json
CONSTANTS MaxOps, Emit
Names == { T("Language"), T("Plural-Forms"), T("X-2"), T("X-10"), T("X-02"), T("x"), T("Language-Team") }
Values == { T("v: w"), <<>> }

VARIABLES hist, meta, fuzzy
vars == <<hist, meta, fuzzy>>

With(m, name, v) ==
    LET at == { i \in 1..Len(m) : m[i][1] = name }
    IN IF at = {} THEN Append(m, <<name, v>>)
       ELSE [m EXCEPT ![CHOOSE i \in at : TRUE][2] = v]
Without(m, name) == SelectSeq(m, LAMBDA p : p[1] # name)

Lines1(m) == Map(OrderedMeta(m), MetaLine)
Out(h, m, z) == [h |-> h, z |-> z, o |-> m, l |-> Lines1(m)]

Init == hist = <<>> /\ meta = <<>> /\ fuzzy \in BOOLEAN
Op(o, m) == /\ Len(hist) < MaxOps
            /\ hist' = Append(hist, o) /\ meta' = m
            /\ Emit => PrintT(ToJson(Out(hist', m, fuzzy)))
            /\ UNCHANGED fuzzy
Next == \E name \in Names :
          \/ \E v \in Values : Op(<<"set", name, v>>, With(meta, name, v))
          \/ (\E i \in 1..Len(meta) : meta[i][1] = name) /\ Op(<<"del", name>>, Without(meta, name))
Spec == Init /\ [][Next]_vars

\* The lines read back are the pairs, whatever their order
ReadBack ==
    LET d == Concat(Map(<<T("msgid \"\""), T("msgstr \"\"")>> \o Lines1(meta), LAMBDA l : Append(l, LF)))
        r == Parse(d)
    IN r.ok /\ SameMeta(r.meta, meta) /\ r.ents = <<>>
\* Each pair once, the order does not depend on the history
Once == LET o == OrderedMeta(meta)
        IN Len(o) = Len(meta) /\ SameMeta(o, meta)
Canonical == OrderedMeta(meta) = OrderedMeta(Reverse(meta))
=============================================================================
