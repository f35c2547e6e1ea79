------------------------------ MODULE Binding ------------------------------
(* An object of the Python module: a file with everything that can be set  *)
(* on it. The calls over its messages are those of Catalog.                *)
EXTENDS Catalog

Pairs(s) == { s[i] : i \in 1..Len(s) }
NamesIn(m) == { p[1] : p \in m }
Updated(m, u) == { p \in m : p[1] \notin NamesIn(u) } \cup u

\* f: [hdr, meta (a set of pairs), fuzzy, width, ents]
Call(kind, f, o) ==
    CASE o.op = "set_header" -> [f EXCEPT !.hdr = OrEmpty(o.hdr)]
      [] o.op = "set_meta" -> [f EXCEPT !.meta = Pairs(o.meta)]
      [] o.op = "update_meta" -> [f EXCEPT !.meta = Updated(f.meta, Pairs(o.meta))]
      [] o.op = "remove_meta" -> [f EXCEPT !.meta = { p \in f.meta : p[1] # o.name }]
      [] o.op = "set_fuzzy" -> [f EXCEPT !.fuzzy = o.on]
      [] o.op = "set_width" -> [f EXCEPT !.width = o.width]
      [] o.op = "assign" -> [f EXCEPT !.ents = o.es]
      [] OTHER -> [f EXCEPT !.ents = Apply(kind, f.ents, o)]
Object(v) == [hdr |-> OrEmpty(v.hdr), meta |-> Pairs(v.meta), fuzzy |-> v.fuzzy, width |-> v.width,
              ents |-> v.ents]
\* What is seen of an object
SameObject(f, seen) == /\ f.hdr = seen.hdr /\ f.fuzzy = seen.fuzzy /\ f.width = seen.width
                       /\ f.meta = Pairs(seen.meta) /\ Len(seen.meta) = Cardinality(f.meta)
                       /\ f.ents = seen.ents

(***************************************************************************)
(* Sequence behaviour                                                      *)
(***************************************************************************)
\* A message is in a file when a lookup by its id and context succeeds, by
\* its id alone when it has no context
IsMember(kind, ents, m) ==
    IF m.ctx = <<>> THEN FindId(ents, m.id) # <<>>
    ELSE FindIdCtx(kind, ents, m.id, m.ctx[1]) # <<>>
=============================================================================
