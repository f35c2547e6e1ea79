----------------------------- MODULE MCConvert -----------------------------
(* All the ways of making messages from others, one after another.         *)
EXTENDS Convert, Json
CONSTANTS MaxOps, Emit

E_wrong == T("e\\qe")
E_end == T("e\\")
E_right == T("e\\n\\\\")
Plain == [id |-> T("i"), str |-> <<T("s")>>, pl |-> <<T("p")>>, strs |-> <<T("x"), <<>>, T("y")>>,
          ctx |-> <<T("c")>>, obs |-> TRUE, com |-> <<T("m\\n")>>, tcom |-> <<T("t\\q")>>,
          occ |-> <<<<T("f"), T("1")>>, <<T("g\\n"), <<>>>>>>, flags |-> <<T("fuzzy"), T("\\n")>>,
          pid |-> <<T("j")>>, ppl |-> <<T("q")>>, pctx |-> <<T("d")>>, line |-> 9]
Texts8 == {"id", "str", "pl", "strs", "ctx", "pid", "ppl", "pctx"}
Held(f, t) == IF f = "id" THEN t ELSE IF f = "strs" THEN <<T("x"), t>> ELSE <<t>>
Put(f, t) == [Plain EXCEPT ![f] = Held(f, t)]
Missing == { [Plain EXCEPT ![f] = <<>>] : f \in {"id", "str", "pl", "strs", "ctx", "com", "tcom", "occ",
                                               "flags", "pid", "ppl", "pctx"} }
           \cup { [Plain EXCEPT !.obs = FALSE, !.flags = <<>>, !.strs = <<T("x")>>, !.str = <<>>] }
\* Messages that are given
Given == {Plain} \cup Missing \cup { Put(f, t) : f \in Texts8, t \in {E_wrong, E_end, E_right, <<>>} }
         \cup { [Put("id", E_wrong) EXCEPT !.pctx = <<E_end>>] }
Samples == {<<>>, T("a"), E_right, E_wrong, <<4>>, T("a") \o <<4>> \o T("b"), <<0>>, <<233, 20013>>}

Ops == { [op |-> "text", t |-> t] : t \in Samples } \cup { [op |-> "mtext", t |-> t] : t \in Samples }
       \cup { [op |-> "pair", t |-> t, u |-> u] : t \in {<<>>, T("a"), E_right}, u \in {<<>>, T("b"), E_wrong} }
       \cup { [op |-> "line", n |-> n] : n \in {0, 1, 70000} }
       \cup { [op |-> "make", e |-> e] : e \in Given }
       \cup { [op |-> "mmake", e |-> OnlyMo(e)] : e \in Given }
       \cup { [op |-> o] : o \in {"tomo", "topo", "unesc"} }

VARIABLES hand, hist
vars == <<hand, hist>>
Init == hand = [po |-> NewMsg, mo |-> OnlyMo(NewMsg)] /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E o \in Ops :
             \* what is given is given first, then converted
             /\ ("e" \in DOMAIN o => hist = <<>>)
             /\ hand' = Do(hand, o)
             /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars

Printed == (Emit /\ hist # <<>>) =>
    PrintT(ToJson([ops |-> hist, po |-> hand.po, mo |-> hand.mo,
                   pkey |-> SearchKey(hand.po), mkey |-> SearchKey(hand.mo),
                   errs |-> Errors(hand.po), pf |-> PoList(hand), mf |-> MoList(hand),
                   cf |-> Compiling(hand, 5 * Len(hist))]))

(***************************************************************************)
(* What conversions are                                                    *)
(***************************************************************************)
EscapeAll(e) == [e EXCEPT !.id = Escape(e.id), !.str = Map(e.str, Escape), !.pl = Map(e.pl, Escape),
                          !.strs = Map(e.strs, Escape), !.ctx = Map(e.ctx, Escape),
                          !.pid = Map(e.pid, Escape), !.ppl = Map(e.ppl, Escape),
                          !.pctx = Map(e.pctx, Escape)]
\* There and back, nothing that a MO message has is lost, and a message made
\* from a MO one has nothing else
Back == OnlyMo(AsPo(hand.mo)) = hand.mo
        /\ OnlyMo(AsPo(OnlyMo(hand.po))) = OnlyMo(hand.po)
        /\ AsPo(OnlyMo(AsPo(hand.mo))) = AsPo(hand.mo)
\* Both kinds are looked up by the same
SameKey == SearchKey(OnlyMo(hand.po)) = SearchKey(hand.po)
           /\ SearchKey(AsPo(hand.mo)) = SearchKey(hand.mo)
\* Different keys for different messages, when ids and contexts do not have
\* the separator
Tells == LET free == { e \in Given : \A i \in 1..Len(TextsOf(e)) : \A j \in 1..Len(TextsOf(e)[i]) :
                                       TextsOf(e)[i][j] # 4 }
         IN hist = <<>> => \A a, b \in free : (SearchKey(a) = SearchKey(b)) = SameMessage(a, b)
\* Unescaping undoes escaping, and touches only texts with escapes
UndoesAll == LET e == EscapeAll(hand.po)
             IN Errors(e) = {} /\ Unescaped(e) = hand.po
Untouched == LET e == Unescaped(hand.po)
             IN Errors(hand.po) = {} =>
                  /\ e.obs = hand.po.obs /\ e.com = hand.po.com /\ e.tcom = hand.po.tcom
                  /\ e.occ = hand.po.occ /\ e.flags = hand.po.flags /\ e.line = hand.po.line
                  /\ Len(e.strs) = Len(hand.po.strs)
============================================================================
