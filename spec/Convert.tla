------------------------------ MODULE Convert ------------------------------
(* Messages and files made from others. A PO and a MO message are at hand,  *)
(* and each operation makes one of them again, or makes a file of them.     *)
EXTENDS Catalog

NewMsg == NewEntry(0)
FromText(t) == [NewMsg EXCEPT !.id = t]
FromPair(t, u) == [NewMsg EXCEPT !.id = t, !.str = <<u>>]
FromLine(n) == [NewMsg EXCEPT !.line = n]
\* A MO message as a PO one: everything else is empty
AsPo(m) == [NewMsg EXCEPT !.id = m.id, !.str = m.str, !.pl = m.pl, !.strs = m.strs, !.ctx = m.ctx]

\* What messages are looked up by
SearchKey(e) == IF e.ctx = <<>> THEN e.id ELSE e.ctx[1] \o <<4>> \o e.id

\* Texts that have escapes in documents
TextsOf(e) == <<e.id>> \o e.str \o e.pl \o e.strs \o e.ctx \o e.pid \o e.ppl \o e.pctx
Errors(e) == LET all == { Unescape(TextsOf(e)[i]) : i \in 1..Len(TextsOf(e)) }
             IN { u \in all : u.kind # "ok" }
Each(o) == Map(o, LAMBDA t : Unescape(t).text)
Unescaped(e) == [e EXCEPT !.id = Unescape(e.id).text, !.str = Each(e.str), !.pl = Each(e.pl),
                          !.strs = Each(e.strs), !.ctx = Each(e.ctx), !.pid = Each(e.pid),
                          !.ppl = Each(e.ppl), !.pctx = Each(e.pctx)]

\* The messages at hand after an operation
Do(s, o) ==
    CASE o.op = "text"  -> [s EXCEPT !.po = FromText(o.t)]
      [] o.op = "mtext" -> [s EXCEPT !.mo = OnlyMo(FromText(o.t))]
      [] o.op = "pair"  -> [s EXCEPT !.po = FromPair(o.t, o.u)]
      [] o.op = "line"  -> [s EXCEPT !.po = FromLine(o.n)]
      [] o.op = "make"  -> [s EXCEPT !.po = o.e]
      [] o.op = "mmake" -> [s EXCEPT !.mo = o.e]
      [] o.op = "tomo"  -> [s EXCEPT !.mo = OnlyMo(s.po)]
      [] o.op = "topo"  -> [s EXCEPT !.po = AsPo(s.mo)]
      [] o.op = "unesc" -> IF Errors(s.po) = {} THEN [s EXCEPT !.po = Unescaped(s.po)] ELSE s
      [] OTHER -> s

\* Files of the messages at hand, with a blank message in the middle
PoList(s) == [hdr |-> <<>>, meta |-> <<>>, fuzzy |-> FALSE, ents |-> <<s.po, NewMsg, s.po>>, w |-> 78]
MoList(s) == [meta |-> <<>>, ents |-> <<s.mo, OnlyMo(NewMsg), s.mo>>, w |-> 78]
\* A file of the message, compiled with a width
Compiling(s, w) == [meta |-> <<>>, ents |-> CompiledFile(<<s.po>>), w |-> w]
============================================================================
