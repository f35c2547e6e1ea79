"""Behaviours of the specification in the Python module.

    driver.py COMMAND --in FILE --scratch DIR --current FILE [--out FILE] [--part I/N]

Prints a JSON line for each difference, and one with the number of cases.
"""
import json
import os
import signal
import sys

import rspolib

PO_TEXT = [("str", "msgstr"), ("pl", "msgid_plural"), ("ctx", "msgctxt"), ("com", "comment"),
           ("tcom", "tcomment"), ("pid", "previous_msgid"), ("ppl", "previous_msgid_plural"),
           ("pctx", "previous_msgctxt")]
MO_TEXT = PO_TEXT[:3]
WHERE = None


# ----------------------------------------------------------------- values
def text(s):
    return [ord(c) for c in s]


def opt(s):
    return [] if s is None else [text(s)]


def un(v):
    return "".join(map(chr, v))


def unopt(v):
    return un(v[0]) if v else None


def seen(kind, e):
    """A message as a record of the specification."""
    r = {"id": text(e.msgid), "strs": [text(s) for s in e.get_msgstr_plural()]}
    for k, name in PO_TEXT if kind == "po" else MO_TEXT:
        r[k] = opt(getattr(e, name))
    if kind == "po":
        r["obs"] = e.obsolete
        r["flags"] = [text(s) for s in e.get_flags()]
        r["occ"] = [[text(f), text(n)] for f, n in e.get_occurrences()]
        r["line"] = e.linenum
    return r


def message(kind, r, way=0):
    """A message of a record, built in one of several ways."""
    if kind == "mo":
        args = [un(r["id"]), unopt(r["str"]), unopt(r["pl"]), [un(s) for s in r["strs"]],
                unopt(r["ctx"])]
        if way % 2 == 0:
            return rspolib.MOEntry(*args)
        e = rspolib.MOEntry()
        (e.msgid, e.msgstr, e.msgid_plural, e.msgstr_plural, e.msgctxt) = args
        return e
    if way % 2 == 0:
        e = rspolib.POEntry(un(r["id"]), unopt(r["str"]), unopt(r["pl"]),
                            [un(s) for s in r["strs"]], unopt(r["ctx"]), unopt(r["tcom"]),
                            unopt(r["com"]), [un(s) for s in r["flags"]])
    else:
        e = rspolib.POEntry()
        e.msgid = un(r["id"])
        for k, name in PO_TEXT[:5]:
            setattr(e, name, unopt(r[k]))
        e.msgstr_plural = [un(s) for s in r["strs"]]
        e.flags = [un(s) for s in r["flags"]]
    for k, name in PO_TEXT[5:]:
        setattr(e, name, unopt(r[k]))
    e.obsolete = r["obs"]
    e.occurrences = [(un(f), un(n)) for f, n in r["occ"]]
    e.linenum = r["line"]
    return e


def metadata(f):
    return [[text(k), text(v)] for k, v in sorted(f.get_metadata().items())]


def listed(kind, f):
    return [seen(kind, e) for e in f.get_entries()]


def new_file(kind, ents, width=41, way=0):
    f = (rspolib.POFile if kind == "po" else rspolib.MOFile)("", wrapwidth=width)
    if way % 2:
        for r in ents:
            f.append(message(kind, r, way // 2))
    else:
        f.entries = [message(kind, r, way // 2) for r in ents]
    return f


def digest(b):
    h = 0xcbf29ce484222325
    for c in b:
        h = ((h ^ c) * 0x100000001b3) & 0xffffffffffffffff
    return f"{h:016x}"


def name_of(e):
    """The name of an exception, with its module when it is not ours."""
    t = type(e)
    for n in ("SyntaxError", "IOError", "EscapingError"):
        if t is getattr(rspolib, n):
            return n
    return f"{t.__module__}.{t.__name__}"


# ------------------------------------------------------------------ cases
def lines(path):
    with open(path) as f:
        for line in f:
            if line.startswith('"{') or line.startswith("{"):
                yield line


def parse(line):
    v = json.loads(line)
    return json.loads(v) if isinstance(v, str) else v


class Tally:
    def __init__(self, current, part):
        self.n = self.bad = 0
        self.part, self.parts = map(int, part.split("/"))
        self.current = open(current, "w")

    def begin(self, case):
        signal.alarm(20)
        self.current.seek(0)
        self.current.write(json.dumps(case) + "\n")
        self.current.flush()

    def report(self, why, case):
        self.bad += 1
        if self.bad <= 20:
            print(json.dumps({"bad": why, "case": case}))

    def each(self, path, judge):
        """judge(case, number) -> (number of judgements, difference or "", case to show)"""
        for k, line in enumerate(lines(path)):
            if k % self.parts != self.part:
                continue
            case = parse(line)
            # so each process goes through all the ways
            k //= self.parts
            self.begin(case)
            try:
                n, why, show = judge(case, k)
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                    raise
                n, why, show = 1, f"exception {name_of(e)}: {str(e)[:120]}", case
            self.n += n
            if why:
                self.report(why, show)
        signal.alarm(0)
        print(json.dumps({"judged": self.n, "bad": self.bad}))
        return 1 if self.bad else 0


def at(ents, ps):
    return [ents[p - 1] for p in ps]


# --------------------------------------------------------------- searches
def find(kind, f, value, by, ctx, obs, way=0):
    """The ways of passing the arguments are the same."""
    if kind == "mo":
        if way % 3 == 0:
            got = f.find(value, by, ctx)
        elif way % 3 == 1 and by == "msgid":
            got = f.find(value, msgctxt=ctx)
        else:
            got = f.find(value, msgctxt=ctx, by=by)
    elif way % 3 == 0:
        got = f.find(value, by, obs, ctx)
    elif way % 3 == 1:
        kw = {}
        if by != "msgid":
            kw["by"] = by
        if obs:
            kw["include_obsolete_entries"] = True
        if ctx is not None:
            kw["msgctxt"] = ctx
        got = f.find(value, **kw)
    else:
        got = f.find(value=value, by=by, msgctxt=ctx, include_obsolete_entries=obs)
    return [seen(kind, e) for e in got]


def one(kind, e):
    return [] if e is None else [seen(kind, e)]


def search(case, k):
    kind, ents = case["k"], case["ents"]
    f = new_file(kind, ents, way=k)
    for i, q in enumerate(case["q"]):
        if q[0] == "find":
            got, exp = find(kind, f, un(q[1]), un(q[2]), unopt(q[3]), q[4], k + i), q[5]
        elif q[0] == "find_id":
            got, exp = one(kind, f.find_by_msgid(un(q[1]))), q[2]
        else:
            got, exp = one(kind, f.find_by_msgid_msgctxt(un(q[1]), un(q[2]))), q[3]
        if got != at(ents, exp):
            return i + 1, "result of a search", {"k": kind, "ents": ents, "q": q, "found": got}
    if listed(kind, f) != ents:
        return len(case["q"]), "file changed by a search", case
    return len(case["q"]), "", None


# ----------------------------------------------------------------- changes
def run(kind, f, o, way=0):
    """An operation of the specification, returns what it returned."""
    op = o["op"]
    if op == "append":
        f.append(message(kind, o["e"], way))
    elif op in ("put", "merge_at"):
        es = f.get_entries()
        if op == "put":
            es[o["at"] - 1] = message(kind, o["e"], way)
        else:
            es[o["at"] - 1].merge(message(kind, o["e"], way))
        f.entries = es
    elif op == "remove":
        f.remove(message(kind, o["e"], way))
    elif op == "remove_id":
        f.remove_by_msgid(un(o["id"]))
    elif op == "remove_idctx":
        f.remove_by_msgid_msgctxt(un(o["id"]), un(o["ctx"]))
    elif op == "find":
        return find(kind, f, un(o["value"]), un(o["by"]), unopt(o["ctx"]), o["obs"], way)
    elif op == "find_id":
        return one(kind, f.find_by_msgid(un(o["id"])))
    elif op == "find_idctx":
        return one(kind, f.find_by_msgid_msgctxt(un(o["id"]), un(o["ctx"])))
    elif op == "assign":
        f.entries = [message(kind, r, way) for r in o["es"]]
    elif op == "set_header":
        f.header = unopt(o["hdr"])
    elif op == "set_meta":
        f.metadata = {un(a): un(b) for a, b in o["meta"]}
    elif op == "update_meta":
        f.update_metadata({un(a): un(b) for a, b in o["meta"]})
    elif op == "remove_meta":
        f.remove_metadata_field(un(o["name"]))
    elif op == "set_fuzzy":
        f.metadata_is_fuzzy = o["on"]
    elif op == "set_width":
        f.wrapwidth = o["width"]
    elif op not in ("start", "views", "member", "save"):
        raise ValueError(op)
    return []


def history(case, k):
    kind, h = case["k"], case["h"]
    f = new_file(kind, h[0]["now"], way=k)
    for o in h:
        run(kind, f, o, k)
        if listed(kind, f) != o["now"]:
            return 1, "messages after a change", {"history": case, "step": o, "found": listed(kind, f)}
        if f.wrapwidth != 41 or f.get_metadata() != {}:
            return 1, "rest of the file after a change", {"history": case, "step": o}
    return 1, "", None


def marks(kind, f, what):
    return [i + 1 for i, e in enumerate(f.get_entries()) if what(e)]


def views(kind, f):
    o = {"ist": marks(kind, f, lambda e: e.translated())}
    if kind == "po":
        o.update(tr=[seen(kind, e) for e in f.translated_entries()],
                 un=[seen(kind, e) for e in f.untranslated_entries()],
                 obsl=[seen(kind, e) for e in f.obsolete_entries()],
                 fz=[seen(kind, e) for e in f.fuzzy_entries()],
                 isf=marks(kind, f, lambda e: e.fuzzy))
        p = f.percent_translated()
        o["pct"] = round(p * 1000) if -1000 <= p <= 1000 else -1
    return o


def status(case, k):
    ents, v = case["ents"], case["v"]
    got = views("po", new_file("po", ents, way=k))
    why = ""
    for name, exp in (("tr", "tr"), ("un", "un"), ("obsl", "obs"), ("fz", "fz")):
        if got[name] != at(ents, v[exp]):
            why = f"view {name}"
    if got["isf"] != v["isf"] or got["ist"] != v["tr"]:
        why = "marks of the messages"
    if abs(got["pct"] * len(ents) - 100000 * len(v["tr"])) > len(ents):
        why = "percentage"
    short = [{n: e[n] for n in ("id", "str", "pl", "strs", "ctx")} for e in ents]
    if views("mo", new_file("mo", short, way=k))["ist"] != case["mo"]:
        why = "translated MO messages"
    return 1, why, {"case": case, "found": got}


def merge(case, k):
    """Messages merged one by one: each is then as the other."""
    n = 0
    for a in case["ents"]:
        for b in case["ref"]:
            for kind in ("po", "mo"):
                n += 1
                x, y = message(kind, a, k), message(kind, b, k + 1)
                x.merge(y)
                if seen(kind, x) != seen(kind, y) or seen(kind, y) != seen(kind, message(kind, b)):
                    return n, "merge of a message", {"k": kind, "a": a, "b": b, "found": seen(kind, x)}
    return n, "", None


FIELDS = ["obsolete", "occurrences", "flags", "msgctxt", "msgid_plural", "msgstr_plural", "msgid",
          "msgstr"]


def order(case, k):
    kind, v = case["k"], case["v"]
    x, y = message(kind, case["a"], k), message(kind, case["b"], k + 1)
    of = FIELDS if kind == "po" else FIELDS[3:]
    n = 0
    for sel in range(k % 3, 256, 3):
        if kind == "mo" and sel & 7 != 7 and sel & 7 != 0:
            continue
        n += 1
        kw = {name: bool(sel >> FIELDS.index(name) & 1) for name in of}
        if k % 2:
            # those that are on need not be said
            kw = {name: on for name, on in kw.items() if not on}
        if x.cmp_by(y, **kw) != v[sel] or y.cmp_by(x, **kw) != -v[sel]:
            return n, "comparison", {"k": kind, "a": case["a"], "b": case["b"], "kw": kw,
                                     "found": x.cmp_by(y, **kw), "expected": v[sel]}
    full = v[255]
    ops = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "cmp": x.__cmp__(y)}
    exp = {"<": full < 0, "<=": full <= 0, ">": full > 0, ">=": full >= 0, "cmp": full}
    if ops != exp:
        return n, "operators", {"k": kind, "a": case["a"], "b": case["b"], "found": ops}
    if (x == y) != (full == 0) or (x != y) != (full != 0):
        return n, "equality", {"k": kind, "a": case["a"], "b": case["b"], "found": [x == y, x != y]}
    return n, "", None


# --------------------------------------------------------------- documents
def documents(case, k):
    d, r = un(case["d"]), case["r"]
    by_path = k % 2 or d == "" or os.path.exists(d)
    name = os.path.join(WHERE, "doc ñ.po")
    if by_path:
        with open(name, "w", newline="") as out:
            out.write(d)
    width = [78, 20, 0][k % 3]
    try:
        make = rspolib.pofile if k % 4 < 2 else rspolib.POFile
        f = make(name if by_path else d, wrapwidth=width)
    except rspolib.SyntaxError as e:
        if r["ok"]:
            return 1, "well-formed document rejected", case
        if by_path and name not in str(e) and r["kind"] != "escape":
            return 1, "error does not name the file", case
        if r["kind"] != "escape" and str(r["line"]) not in str(e):
            return 1, "error does not name the line", case
        return 1, "", None
    if not r["ok"]:
        return 1, "malformed document accepted", case
    got = {"hdr": text(f.header), "meta": sorted(metadata(f)), "fuzzy": f.metadata_is_fuzzy,
           "ents": listed("po", f), "width": f.wrapwidth}
    exp = {"hdr": r["hdr"][0] if r["hdr"] else [], "meta": sorted(r["meta"]), "fuzzy": r["fuzzy"],
           "ents": r["ents"], "width": width}
    bad = [n for n in exp if got[n] != exp[n]]
    return 1, f"{bad[0]} differ" if bad else "", case


def normal(e):
    plural = e["pl"] != []
    return [e["id"], e["ctx"], e["pl"], e["strs"] if plural else [],
            [] if plural else e["str"] or [[]]]


def images(case, k):
    r = case["r"]
    name = os.path.join(WHERE, "imagen ñ.mo")
    with open(name, "wb") as out:
        out.write(bytes(case["b"]))
    try:
        make = rspolib.mofile if k % 4 < 2 else rspolib.MOFile
        f = make(name) if k % 2 else make(name, 33)
    except rspolib.IOError:
        return 1, "valid image refused" if r["ok"] else "", case
    if not r["ok"]:
        return 1, "image with errors accepted", case
    if f.wrapwidth != (78 if k % 2 else 33):
        return 1, "width", case
    if sorted(metadata(f)) != sorted(r["meta"]):
        return 1, "metadata", case
    if sorted(map(normal, listed("mo", f))) != sorted(map(normal, r["ents"])):
        return 1, "messages", case
    if f.magic_number != (f.MAGIC_SWAPPED if r["be"] else f.MAGIC) or f.version != r["rev"]:
        return 1, "byte order or revision", case
    return 1, "", None


def escapes(case, k):
    s = un(case["s"])
    if rspolib.escape(s) != un(case["e"]):
        return 1, "escape", case
    u = case["u"]
    try:
        got = rspolib.unescape(s)
    except rspolib.EscapingError:
        return 1, "unescape refuses" if u["kind"] == "ok" else "", case
    if u["kind"] != "ok":
        return 1, "unescape accepts", case
    return 1, "unescape" if got != un(u["text"]) else "", case


# ------------------------------------------------------------ construction
KEYWORDS = [("id", "msgid"), ("str", "msgstr"), ("pl", "msgid_plural"), ("strs", "msgstr_plural"),
            ("ctx", "msgctxt"), ("tcom", "tcomment"), ("com", "comment"), ("flags", "flags")]
SETTERS = dict(KEYWORDS + [("obs", "obsolete"), ("occ", "occurrences"), ("pid", "previous_msgid"),
                           ("ppl", "previous_msgid_plural"), ("pctx", "previous_msgctxt"),
                           ("line", "linenum")])


def native(field, v):
    if field == "id":
        return un(v)
    if field in ("strs", "flags"):
        return [un(s) for s in v]
    if field == "occ":
        return [(un(a), un(b)) for a, b in v]
    if field in ("obs", "line"):
        return v
    return unopt(v)


def construct(case, k):
    kind, given = case["k"], case["given"]
    make = rspolib.POEntry if kind == "po" else rspolib.MOEntry
    values = {f: native(f, v) for f, v in case["all"].items()}
    names = [f for f, _ in KEYWORDS]
    ways = [make(**{w: values[f] for f, w in KEYWORDS if f in given})]
    n = len(given)
    if set(given) == set(names[:n]):
        ways.append(make(*[values[f] for f in names[:n]]))
    # no value is the same as nothing given
    empty = {"id": "", "strs": [], "flags": []}
    all_names = KEYWORDS if kind == "po" else KEYWORDS[:5]
    ways.append(make(**{w: values[f] if f in given else empty.get(f) for f, w in all_names}))
    for e in ways:
        for f, v in case["sets"]:
            setattr(e, SETTERS[f], native(f, v))
        if seen(kind, e) != case["e"]:
            return 1, "constructed message", {"case": case, "found": seen(kind, e)}
        if e.translated() != case["tr"] or (kind == "po" and e.fuzzy != case["fz"]):
            return 1, "status of a constructed message", case
        if str(e) != e.to_string_with_wrapwidth(78):
            return 1, "rendered message", case
    if len({str(e) for e in ways}) != 1 or not all(e == ways[0] for e in ways):
        return 1, "constructed messages differ", case
    return len(ways), "", None


# ---------------------------------------------------------------- aliasing
ID = {1: "uno", 2: "dos"}
STR = {0: "", 1: "traducción"}
LIST = {1: "c-format", 2: "fuzzy", 3: "python-format"}
META = {1: "Language", 2: "X-Other"}


class World:
    def __init__(self, kind):
        self.kind = kind
        self.hand = {1: self.msg((1, 0, [])), 2: self.msg((2, 0, []))}
        self.f = (rspolib.POFile if kind == "po" else rspolib.MOFile)()
        self.f.entries = [self.msg((1, 0, [])), self.msg((2, 1, [1]))]
        self.f.metadata = {META[1]: "1"}
        self.it = self.lst = self.got = self.mapp = None

    def msg(self, v):
        make = rspolib.POEntry if self.kind == "po" else rspolib.MOEntry
        e = make(ID[v[0]], STR[v[1]])
        self.set_list(e, [LIST[x] for x in v[2]])
        return e

    def set_list(self, e, v):
        if self.kind == "po":
            e.flags = v
        else:
            e.msgstr_plural = v

    def get_list(self, e):
        return e.get_flags() if self.kind == "po" else e.get_msgstr_plural()

    def value(self, e):
        back = {v: k for k, v in ID.items()}
        lists = {v: k for k, v in LIST.items()}
        strs = {v: k for k, v in STR.items()}
        return [back.get(e.msgid, e.msgid), strs.get(e.msgstr, e.msgstr),
                [lists.get(x, x) for x in self.get_list(e)]]

    def do(self, op, a, b):
        f = self.f
        if op == "index":
            self.hand[a] = f[b - 1]
        elif op == "listed":
            self.hand[a] = f.get_entries()[b - 1]
        elif op == "iterated":
            self.hand[a] = list(f)[b - 1]
        elif op == "find":
            self.hand[a] = f.find(ID[b])[0]
        elif op == "find_id":
            self.hand[a] = f.find_by_msgid(ID[b])
        elif op == "view":
            if self.kind == "po":
                got = f.translated_entries() + f.untranslated_entries()
                first = next(e for e in f if e.msgid == ID[b])
                self.hand[a] = next(e for e in got if e == first)
            else:
                self.hand[a] = next(e for e in f if e.msgid == ID[b])
        elif op == "next":
            self.hand[a] = next(self.it)
        elif op == "from_list":
            # the same object, not a copy: the program shares it
            self.hand[a] = self.msg(self.value(self.got[0]))
        elif op == "set_id":
            self.hand[a].msgid = ID[b]
        elif op == "set_str":
            self.hand[a].msgstr = STR[b]
        elif op == "set_list":
            self.set_list(self.hand[a], [LIST[b]])
        elif op == "give_list":
            self.set_list(self.hand[a], self.lst)
        elif op == "merge":
            self.hand[a].merge(self.hand[b])
        elif op == "new":
            self.hand[a] = self.msg((1, 0, []))
        elif op == "take_list":
            self.lst = self.get_list(self.hand[a])
        elif op == "grow_list":
            self.lst.append(LIST[b])
        elif op == "take_entries":
            self.got = f.get_entries()
        elif op == "pop_entries":
            self.got.pop(0)
        elif op == "set_in_entries":
            self.got[0].msgstr = STR[b]
        elif op == "append":
            f.append(self.hand[a])
        elif op == "remove":
            f.remove(self.hand[a])
        elif op == "assign":
            f.entries = [self.hand[1], self.hand[2]]
        elif op == "assign_twice":
            f.entries = [self.hand[1], self.hand[1]]
        elif op == "assign_entries":
            f.entries = self.got
        elif op == "assign_none":
            f.entries = []
        elif op == "remove_id":
            f.remove_by_msgid(ID[b])
        elif op == "iter":
            self.it = iter(f)
        elif op == "take_meta":
            self.mapp = f.get_metadata()
        elif op == "set_in_meta":
            self.mapp[META[a]] = str(b)
        elif op == "assign_meta":
            f.metadata = self.mapp
        elif op == "update_meta":
            f.update_metadata(self.mapp)
        elif op == "remove_meta":
            f.remove_metadata_field(META[a])
        else:
            raise ValueError(op)

    def differs(self, case):
        f, exp = self.f, [list(v) for v in case["fil"]]
        names = {v: k for k, v in META.items()}
        pairs = lambda m: sorted([names.get(k, k), int(v)] for k, v in m.items())  # noqa: E731
        if len(f) != len(exp):
            return "length"
        if [self.value(e) for e in f.get_entries()] != exp:
            return "messages of the file"
        if [self.value(f[i]) for i in range(len(exp))] != exp:
            return "messages by index"
        if [self.value(e) for e in f] != exp:
            return "messages by iteration"
        for i in (len(exp), len(exp) + 1, len(exp) + 1000, 2**40):
            try:
                f[i]
                return "an index past the end gives a message"
            except IndexError:
                pass
        for h in (1, 2):
            if self.value(self.hand[h]) != list(case["hand"][h - 1]):
                return f"message {h} of the program"
            inside = f.find_by_msgid(self.hand[h].msgid) is not None
            if (self.hand[h] in f) != inside or inside != any(v[0] == case["hand"][h - 1][0] for v in exp):
                return "membership"
        if pairs(f.get_metadata()) != sorted(map(list, case["meta"])):
            return "metadata of the file"
        if case["mapp"] and pairs(self.mapp) != sorted(map(list, case["mapp"][0])):
            return "mapping of the program"
        if case["lists"] and self.lst != [LIST[x] for x in case["lists"][0]]:
            return "list of the program"
        if case["got"] and [self.value(e) for e in self.got] != [list(v) for v in case["got"][0]]:
            return "messages of the program"
        if case["wait"]:
            if [self.value(e) for e in self.it] != [list(v) for v in case["wait"][0]]:
                return "messages of an iteration"
            if next(self.it, None) is not None:
                return "an iteration that ended gives more"
        other = (rspolib.POFile if self.kind == "po" else rspolib.MOFile)()
        other.entries = [self.msg(v) for v in exp]
        other.metadata = f.get_metadata()
        if not (f == other) or f != other or str(f) != str(other):
            return "equality of files"
        other.append(self.msg((1, 1, [])))
        if f == other or not (f != other):
            return "inequality of files"
        return ""


def alias(case, k):
    for kind in ("po", "mo"):
        w = World(kind)
        for op, a, b in case["h"]:
            w.do(op, a, b)
        why = w.differs(case)
        if why:
            return 1, f"{why} ({kind})", case
    return 2, "", None


# ---------------------------------------------------------------- sessions
def show(kind, f):
    return {"hdr": text(f.header) if kind == "po" else [],
            "fuzzy": f.metadata_is_fuzzy if kind == "po" else False,
            "meta": metadata(f), "width": f.wrapwidth, "ents": listed(kind, f)}


def digests(kind, f, w):
    e = f.metadata_as_entry()
    parts = [str(f).encode(), bytes(f.as_bytes()), bytes(f.as_bytes_le()), bytes(f.as_bytes_be()),
             bytes(f.as_bytes_with(rspolib.MOFile.MAGIC_SWAPPED, 1)), str(e).encode()]
    each = "".join(f"{e}\x01{e.to_string_with_wrapwidth(w)}\x01{e.msgid_eot_msgctxt()}\x01" for e in f)
    return [digest(p) for p in parts + [each.encode()]]


def hashed(v):
    return digest(json.dumps(v).encode())


def as_sequence(kind, f):
    """The file as a sequence: length, digests of the ways of going over it,
    and whether indexes past its end are refused."""
    n = len(f)
    past = 0
    for i in (n, n + 1, n + 70000):
        try:
            f[i]
        except IndexError:
            past += 1
    ways = [listed(kind, f), [seen(kind, f[i]) for i in range(n)], [seen(kind, e) for e in f],
            [seen(kind, e) for e in iter(f)]]
    return {"n": n, "ways": [hashed(w) for w in ways], "past": past}


def equalities(kind, f, start):
    """The file compared with others: [f == g, g == f, not f != g, same text]."""
    others = [start, f]
    if kind == "po":
        text_of = str(f)
        # read from other texts, that can be written in the same way
        for t in (text_of, "\n" + text_of, text_of.replace("\nmsgstr", "\n\nmsgstr")):
            try:
                others.append(rspolib.pofile(t, f.wrapwidth))
            except rspolib.SyntaxError:
                pass
    again = rspolib.POFile() if kind == "po" else rspolib.MOFile()
    again.wrapwidth = f.wrapwidth
    again.entries = f.get_entries()
    again.metadata = f.get_metadata()
    if kind == "po":
        again.header = f.header
        again.metadata_is_fuzzy = f.metadata_is_fuzzy
    others.append(again)
    return [[f == g, g == f, not f != g, str(f) == str(g)] for g in others]


def session(c, k):
    kind, start = c["k"], c["start"]
    f = new_file(kind, start["ents"], start["width"], k)
    f.metadata = {un(a): un(b) for a, b in start["meta"]}
    if kind == "po":
        f.header = unopt(start["hdr"])
        f.metadata_is_fuzzy = start["fuzzy"]
    first = new_file(kind, start["ents"], start["width"], k + 1)
    first.metadata = f.get_metadata()
    for i, o in enumerate(c["ops"]):
        o.update(exc="", res=[], dig=[])
        try:
            dig = []
            if o["op"] == "save":
                path = os.path.join(WHERE, "saved")
                {"po": f.save_as_pofile, "mo": f.save_as_mofile, "": f.save}[o["as"]](path)
                with open(path, "rb") as got:
                    dig.append(digest(got.read()))
            o["res"] = run(kind, f, o, k + i)
            if o["op"] == "views":
                o.update(views(kind, f))
            if o["op"] == "member":
                o["in"] = message(kind, o["e"], k) in f
            o["now"] = show(kind, f)
            o["dig"] = dig + digests(kind, f, o["dw"])
            o["seq"] = as_sequence(kind, f)
            o["eq"] = equalities(kind, f, first)
        except BaseException as e:
            o["exc"] = name_of(e)
            o["now"] = start
            c["ops"] = c["ops"][:i + 1]
            return


def call(c):
    fn, arg = c["fn"], c["arg"]
    try:
        if fn in ("escape", "unescape"):
            v = text(getattr(rspolib, fn)(un(arg)))
        else:
            name = un(c["name"])
            if c["path"]:
                with open(name, "wb") as out:
                    out.write(bytes(arg) if fn == "mofile" else un(arg).encode())
            what = name if c["path"] else un(arg)
            if fn == "pofile":
                f = (rspolib.POFile if c["new"] else rspolib.pofile)(what, c["width"])
                v = [text(f.header), metadata(f), f.metadata_is_fuzzy, listed("po", f), f.wrapwidth]
            else:
                f = (rspolib.MOFile if c["new"] else rspolib.mofile)(what, c["width"])
                v = [metadata(f), listed("mo", f), f.wrapwidth, f.magic_number == f.MAGIC_SWAPPED,
                     f.version]
        c["py"] = {"exc": "", "msg": [], "v": v}
    except BaseException as e:
        c["py"] = {"exc": name_of(e), "msg": text(str(e)), "v": []}


def record(t, path, out):
    with open(out, "w") as f:
        for k, c in enumerate(map(parse, lines(path))):
            t.begin(c)
            if c["t"] == "session":
                session(c, k)
            else:
                call(c)
            f.write(json.dumps(c) + "\n")
            t.n += 1
    signal.alarm(0)
    return 0


# ------------------------------------------------------------------- limits
def limits(t):
    """Arguments that can not be used raise, always with an exception of Python."""
    po, mo = rspolib.POFile(), rspolib.MOFile()
    gone = os.path.join(WHERE, "no such directory", "x")
    tries = []
    for f in (po, mo):
        f.append((rspolib.POEntry if f is po else rspolib.MOEntry)("a", "b"))
        for m in (f.save, f.save_as_pofile, f.save_as_mofile):
            tries += [(m, (gone,), OSError), (m, (WHERE,), OSError)]
        tries += [(f.__getitem__, (1,), IndexError), (f.__getitem__, (-1,), (IndexError, OverflowError)),
                  (f.find, (1,), TypeError), (f.append, (None,), TypeError), (f.find_by_msgid, (None,), TypeError)]
    tries += [(rspolib.pofile, (1,), TypeError), (rspolib.mofile, (None,), TypeError),
              (rspolib.unescape, (None,), TypeError), (rspolib.POFile, ("", -1), OverflowError),
              (rspolib.pofile, ("",), ()), (rspolib.mofile, (gone,), rspolib.IOError),
              (rspolib.pofile, ("\ud800",), UnicodeError), (rspolib.escape, ("\udfff",), UnicodeError)]
    for m, args, exp in tries:
        t.n += 1
        t.begin({"call": repr(m), "args": repr(args)})
        try:
            m(*args)
            got = None
        except BaseException as e:
            got = e
        if got is None and exp != () or got is not None and (exp == () or not isinstance(got, exp)):
            t.report("exception of a call that can not be done",
                     {"call": getattr(m, "__qualname__", repr(m)), "args": repr(args), "found": got and name_of(got)})
    signal.alarm(0)
    print(json.dumps({"judged": t.n, "bad": t.bad}))
    return 1 if t.bad else 0


def main():
    global WHERE
    args = dict(zip([a[2:] for a in sys.argv[2::2]], sys.argv[3::2]))
    part = args.get("part", "0/1")
    WHERE = os.path.join(args["scratch"], part.replace("/", "-"))
    os.makedirs(WHERE, exist_ok=True)
    # a call that takes too long is killed
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    t = Tally(args["current"], part)
    what = sys.argv[1]
    if what == "nothing":
        return 0
    if what == "record":
        return record(t, args["in"], args["out"])
    if what == "limits":
        return limits(t)
    judges = {"search": search, "history": history, "status": status, "merge": merge, "order": order,
              "documents": documents, "images": images, "escapes": escapes, "construct": construct,
              "alias": alias}
    return t.each(args["in"], judges[what])


if __name__ == "__main__":
    sys.exit(main())
