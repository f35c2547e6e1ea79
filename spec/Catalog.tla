------------------------------ MODULE Catalog ------------------------------
(* Files in memory: a PO or a MO file is a list of messages (its header    *)
(* and metadata are independent of them), and the operations of the        *)
(* library over that list. A search returns positions, so two messages     *)
(* that are equal are told apart.                                          *)
EXTENDS Mo, PoRender

(***************************************************************************)
(* Searches                                                                *)
(***************************************************************************)
F_id == T("msgid")
F_str == T("msgstr")
F_ctx == T("msgctxt")
F_pl == T("msgid_plural")
F_pid == T("previous_msgid")
F_ppl == T("previous_msgid_plural")
F_pctx == T("previous_msgctxt")
MoFields == {F_id, F_str, F_ctx, F_pl}
PoFields == MoFields \cup {F_pid, F_ppl, F_pctx}
FieldsOf(kind) == IF kind = "po" THEN PoFields ELSE MoFields

\* Optional value of a field
FieldOf(e, by) ==
    CASE by = F_id -> <<e.id>> [] by = F_str -> e.str [] by = F_ctx -> e.ctx
      [] by = F_pl -> e.pl [] by = F_pid -> e.pid [] by = F_ppl -> e.ppl
      [] by = F_pctx -> e.pctx

\* An absent field matches as an empty one, an unknown field never does
Matches(kind, e, by, value) == by \in FieldsOf(kind) /\ OrEmpty(FieldOf(e, by)) = value
IsObs(kind, e) == IF kind = "po" THEN e.obs ELSE FALSE
InContext(e, ctx) == ctx = <<>> \/ OrEmpty(e.ctx) = ctx[1]

Positions(ents, Test(_)) == SelectSeq([i \in 1..Len(ents) |-> i], LAMBDA i : Test(ents[i]))
FirstOf(ps) == IF ps = <<>> THEN <<>> ELSE <<ps[1]>>

\* All the matches. Obsolete messages only when they are asked for, a context
\* only when it is given
Find(kind, ents, value, by, ctx, obs) ==
    Positions(ents, LAMBDA e : /\ obs \/ ~IsObs(kind, e)
                               /\ Matches(kind, e, by, value)
                               /\ InContext(e, ctx))
\* The first match, obsolete or not
FindId(ents, id) == FirstOf(Positions(ents, LAMBDA e : e.id = id))
\* An absent context is an empty one in PO files, MO files want it present
FindIdCtx(kind, ents, id, ctx) ==
    FirstOf(Positions(ents, LAMBDA e : /\ e.id = id
                                       /\ IF kind = "po" THEN OrEmpty(e.ctx) = ctx
                                          ELSE e.ctx = <<ctx>>))

(***************************************************************************)
(* Changes                                                                 *)
(***************************************************************************)
At(ents, ps) == Map(ps, LAMBDA i : ents[i])
WithoutAt(ents, i) == SubSeq(ents, 1, i - 1) \o SubSeq(ents, i + 1, Len(ents))
WithoutFirst(ents, ps) == IF ps = <<>> THEN ents ELSE WithoutAt(ents, ps[1])
RemoveId(ents, id) == WithoutFirst(ents, FindId(ents, id))
RemoveIdCtx(ents, id, ctx) ==
    WithoutFirst(ents, Positions(ents, LAMBDA e : e.id = id /\ OrEmpty(e.ctx) = ctx))
RemoveEqual(ents, m) == SelectSeq(ents, LAMBDA e : e # m)

(***************************************************************************)
(* Merge                                                                   *)
(***************************************************************************)
SameMessage(a, b) == a.id = b.id /\ a.ctx = b.ctx
HasMessage(ents, m) == \E i \in 1..Len(ents) : SameMessage(ents[i], m)
Merged(ents, ref) ==
    LET all == FoldLeft(LAMBDA a, m : IF HasMessage(a, m) THEN a ELSE Append(a, m), ents, ref)
    IN Map(all, LAMBDA e : IF HasMessage(ref, e) THEN e ELSE [e EXCEPT !.obs = TRUE])

(***************************************************************************)
(* Status                                                                  *)
(***************************************************************************)
Form(e) == IF e.str # <<>> THEN e.str[1] # <<>>
           ELSE e.strs # <<>> /\ \A i \in 1..Len(e.strs) : e.strs[i] # <<>>
IsTranslated(e) == ~e.obs /\ ~IsFuzzy(e) /\ Form(e)
\* Some translation is enough in MO files
MoIsTranslated(e) == IF e.str # <<>> THEN e.str[1] # <<>>
                     ELSE \E i \in 1..Len(e.strs) : e.strs[i] # <<>>
Views(ents) ==
    [ tr |-> Positions(ents, IsTranslated),
      un |-> Positions(ents, LAMBDA e : ~IsTranslated(e)),
      obs |-> Positions(ents, LAMBDA e : e.obs),
      fz |-> Positions(ents, LAMBDA e : IsFuzzy(e) /\ ~e.obs),
      isf |-> Positions(ents, IsFuzzy) ]
\* Whether a number of thousandths is the percentage of translated messages
IsPercent(ents, p) ==
    LET n == Len(ents)
        t == Len(Positions(ents, IsTranslated))
        x == p * n - 100000 * t
    IN IF n = 0 THEN p = 0 ELSE x <= n /\ -x <= n

(***************************************************************************)
(* Operations, and what they return: positions (in the list before) of the *)
(* messages found                                                          *)
(***************************************************************************)
Apply(kind, ents, o) ==
    CASE o.op = "append" -> Append(ents, o.e)
      [] o.op = "put" -> [ents EXCEPT ![o.at] = o.e]
      [] o.op = "remove" -> RemoveEqual(ents, o.e)
      [] o.op = "remove_id" -> RemoveId(ents, o.id)
      [] o.op = "remove_idctx" -> RemoveIdCtx(ents, o.id, o.ctx)
      [] o.op = "merge" -> Merged(ents, o.ref)
      [] o.op = "merge_at" -> [ents EXCEPT ![o.at] = o.e]
      [] OTHER -> ents
Result(kind, ents, o) ==
    CASE o.op = "find" -> Find(kind, ents, o.value, o.by, o.ctx, o.obs)
      [] o.op = "find_id" -> FindId(ents, o.id)
      [] o.op = "find_idctx" -> FindIdCtx(kind, ents, o.id, o.ctx)
      [] OTHER -> <<>>

(***************************************************************************)
(* Order                                                                   *)
(***************************************************************************)
\* An absent field is compared as the text of a NUL: after the empty one and
\* before any other
Absent == <<NUL>>
CmpOpt(a, b) == CmpText(IF a = <<>> THEN Absent ELSE a[1], IF b = <<>> THEN Absent ELSE b[1])
CmpList(a, b) == CmpTexts(SortBy(a, CmpText), SortBy(b, CmpText))
CmpRefs(a, b) == CmpPairs(SortBy(a, CmpTexts), SortBy(b, CmpTexts))
\* The comparisons of the fields, in the order in which they decide
PoCmps(a, b) == << IF a.obs = b.obs THEN 0 ELSE IF a.obs THEN -1 ELSE 1,
                   CmpRefs(a.occ, b.occ), CmpList(a.flags, b.flags), CmpOpt(a.ctx, b.ctx),
                   CmpOpt(a.pl, b.pl), CmpList(a.strs, b.strs), CmpText(a.id, b.id),
                   CmpOpt(a.str, b.str) >>
MoCmps(a, b) == << 0, 0, 0, CmpOpt(a.ctx, b.ctx), CmpOpt(a.pl, b.pl), CmpList(a.strs, b.strs),
                   CmpText(a.id, b.id), CmpOpt(a.str, b.str) >>
Cmps(kind, a, b) == IF kind = "po" THEN PoCmps(a, b) ELSE MoCmps(a, b)
NFields == 8
\* sel: which of the fields are compared
RECURSIVE Decide(_, _, _)
Decide(cmps, sel, i) == IF i > NFields THEN 0
                        ELSE IF sel[i] /\ cmps[i] # 0 THEN cmps[i]
                        ELSE Decide(cmps, sel, i + 1)
CmpBy(kind, sel, a, b) == Decide(Cmps(kind, a, b), sel, 1)

(***************************************************************************)
(* Reading what was saved                                                  *)
(***************************************************************************)
OnlyMo(e) == [id |-> e.id, str |-> e.str, pl |-> e.pl, strs |-> e.strs, ctx |-> e.ctx]
\* The messages of a MO file made of a PO file, and of its image
CompiledFile(ents) == Map(SelectSeq(ents, IsTranslated), OnlyMo)
FromImage(ents) == SortBy(Map(ents, Compiled), LAMBDA a, b : CmpText(UpToNul(Key(a)), UpToNul(Key(b))))
============================================================================
