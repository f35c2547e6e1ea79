"""The reader machine of PO documents: P01, P02, P03."""


def corrupt_outcome(case, i):
    """A recorded outcome that is not the one of the document."""
    r = case["r"]
    if r["ok"]:
        ents = r["ents"]
        if i % 3 == 0 or not ents:
            r["hdr"] = [] if r["hdr"] else [[120]]
        elif i % 3 == 1:
            ents[-1]["id"] = ents[-1]["id"] + [120]
        else:
            ents[-1]["line"] += 1
        return case
    return None


def corrupt_error(case, i):
    r = case["r"]
    if r["ok"] or r["kind"] == "basic":
        return None
    if i % 2:
        r["line"] += 1
    else:
        case["r"] = {"ok": True, "hdr": [], "meta": [], "fuzzy": False, "ents": []}
    return case


def corrupt_panic(case, i):
    case["r"] = {"ok": False, "kind": "panic", "line": 0, "col": 0, "named": True, "why": "x"}
    return case


INV = ["TypeOK", "Counts", "ErrorsName", "GroupingAgrees"]


def explore(c):
    kinds = {"P01": '{"wf"}', "P02": '{"wf", "mf"}', "P03": '{"wf", "mf"}'}[c.prop]
    # every document of a few lines, of all the kinds of lines
    length = {"P01": c.scale(4, 5), "P02": c.scale(3, 4), "P03": c.scale(4, 4)}[c.prop]
    out = c.model("MCReader", "all-short", invariants=INV,
                  constants={"MaxLen": length, "Emit": "TRUE", "Kinds": kinds, "Clean": "FALSE"})
    c.replay(["replay-po", "--in", out, "--prop", c.prop, "--scratch", c.path("scratch")],
             "replay-short")
    if c.prop != "P02":
        # longer ones with the main kinds
        length = c.scale(5, 6)
        out = c.model("MCReader", "all-core", invariants=INV,
                      constants={"MaxLen": length, "Emit": "TRUE", "Kinds": '{"core"}',
                                 "Clean": "FALSE"})
        c.replay(["replay-po", "--in", out, "--prop", c.prop, "--scratch", c.path("scratch")],
                 "replay-core")
    # long random behaviours of the machine, with all their one line variations
    out = c.model("MCReader", "long", invariants=INV, simulate=(c.scale(12, 120), 26),
                  constants={"MaxLen": 25, "Emit": "TRUE", "Kinds": '{"wf", "mf"}',
                             "Clean": "TRUE"})
    c.replay(["replay-po", "--in", out, "--prop", c.prop, "--scratch", c.path("scratch")],
             "replay-long")


def lines(c):
    """Any line typed token by token."""
    for kind, toks, where in {
        "P01": [("kw", 3, "{2, 4}"), ("cm", c.scale(3, 4), "{1, 2, 4, 5}"),
                ("ref", c.scale(4, 5), "{4}"), ("flag", c.scale(4, 5), "{4}"),
                ("note", c.scale(3, 4), "{1, 4}"), ("prev", c.scale(3, 4), "{4}")],
        "P02": [("kw", c.scale(2, 3), "{1, 2, 3, 4, 5}"), ("cm", c.scale(3, 4), "{1, 4}"),
                ("ref", 3, "{1, 4}"), ("flag", 3, "{1, 4}"), ("note", 3, "{1, 4}"),
                ("prev", c.scale(3, 4), "{1, 4}")],
        "P03": [("kw", 3, c.scale("{3}", "{1, 2, 3, 4, 5}")),
                ("cm", c.scale(3, 4), "{1, 2, 3, 4, 5}"), ("prev", c.scale(3, 4), "{2, 4}")],
    }[c.prop]:
        out = c.model("MCLine", f"lines-{kind}", view="View",
                      invariants=["Printed", "KeepsEnded", "Around", "ErrorHere", "NeverBoth"],
                      constants={"Kind": f'"{kind}"', "MaxToks": toks, "Where": where,
                                 "Emit": "TRUE"})
        c.replay(["replay-po", "--in", out, "--prop", c.prop, "--scratch", c.path("scratch")],
                 f"replay-lines-{kind}")


def scales(c):
    """Documents of any size: the closed form holds in small ones."""
    breaks = {"P01": "{0}", "P02": "{0, 3, 5, 7}", "P03": "{1, 2, 3, 4, 5, 6, 7}"}[c.prop]
    c.model("MCScale", "small", invariants=["Reads"],
            constants={"Small": "TRUE", "All": "TRUE" if c.thorough else "FALSE",
                       "Breaks": breaks, "Big": 0})
    out = c.model("MCScale", "big", invariants=["Printed"],
                  constants={"Small": "FALSE", "All": "FALSE", "Breaks": breaks,
                             "Big": c.scale(300, 4000)})
    c.replay(["replay-po", "--in", out, "--prop", c.prop, "--scratch", c.path("scratch")],
             "replay-big")


def raw(c):
    """Bytes of all the kinds inside of a string."""
    out = c.model("MCBytes", "bytes", invariants=["Printed", "OneText", "Written", "LossyRight"],
                  constants={"Target": '"po"', "Alphabet": "<- Classes", "MaxLen": c.scale(3, 4),
                             "Emit": "TRUE"})
    c.replay(["replay-po", "--in", out, "--prop", c.prop, "--scratch", c.path("scratch")],
             "replay-bytes")


def record(c, n, corrupt):
    nd = c.path("docs.nd")
    if c.driver(["gen-po", "--prop", c.prop, "--seed", str(c.seed), "--n", str(n), "--out", nd,
                 "--scratch", c.path("scratch")], "gen") is None:
        return
    c.validate("TraceReader", "recorded", nd, corrupt=corrupt)


def P01(c):
    explore(c)
    lines(c)
    scales(c)
    raw(c)
    record(c, c.scale(3000, 40000), corrupt_outcome)


def P02(c):
    explore(c)
    lines(c)
    scales(c)
    raw(c)
    record(c, c.scale(6000, 80000), corrupt_panic)


def P03(c):
    explore(c)
    lines(c)
    scales(c)
    record(c, c.scale(4000, 50000), corrupt_error)
