"""Rendering of PO files: content (S01), normal form (S02), wrapping (S03), metadata (S04)."""
import json

import lib


def lost_headers(c):
    """A header that ends in a blank line loses it: known, a test asks for it."""
    nd = c.path("known.nd")
    if c.driver(["known-render", "--out", nd], "known") is None:
        return
    with open(nd) as f:
        found = json.loads(f.readline())
    if found["lost" if c.prop == "S01" else "drift"]:
        what = c.known.get("blank-header-end")
        if what is None:
            c.violation("a header that ends in a blank line", found, "known")
        else:
            c.known_finding(what)


def corrupt_read(case, i):
    if not case["r"]["ok"]:
        return None
    if case["r"]["ents"] and i % 2:
        case["r"]["ents"][-1]["id"].append(120)
    elif i % 3:
        case["r"]["fuzzy"] = not case["r"]["fuzzy"]
    else:
        case["r"]["hdr"] = []
    return case


def corrupt_text(case, i):
    if not case["ok"]:
        return None
    if i % 3 == 0:
        case["d3"].append(10)
    elif i % 3 == 1:
        case["same"][0] = case["same"][0][:-1]
    else:
        case["d"] = case["d"] + [10]
        case["d2"] = case["d3"] = case["d"]
        case["same"] = []
    return case


def corrupt_line(case, i):
    if not case["ok"]:
        return None
    if i % 3 == 0:
        case["d"] = case["d"][:-1]
    elif i % 3 == 1:
        case["d"] = case["d"] + [10]
    elif 34 in case["d"]:
        at = case["d"].index(34)
        case["d"].insert(at, 32)
    else:
        return None
    return case


def corrupt_meta(case, i):
    if case["t"] == "doc":
        if not case["r"]["ok"]:
            return None
        case["r"]["fuzzy"] = not case["r"]["fuzzy"]
        return case
    if len(case["o"]["po"]) < 2:
        return None
    case["o"]["po"].reverse()
    return case


CORRUPT = {"S01": corrupt_read, "S02": corrupt_text, "S03": corrupt_line}


def files(c, name, changes, entries, rich, widths):
    """Files of the editor, written by the library at some widths."""
    out = c.model("MCRender", name, view="View",
                  invariants=["Printed", "ReadsBack", "Fixpoint", "LosesOnce"],
                  constants={"MaxChanges": changes, "MaxEntries": entries,
                             "Rich": "TRUE" if rich else "FALSE"})
    nd = c.path(f"{name}.nd")
    if c.driver(["record-render", "--in", out, "--prop", c.prop, "--widths", widths,
                 "--out", nd, "--scratch", c.path("scratch")], f"write-{name}") is not None:
        c.validate("TraceRender", f"written-{name}", nd, corrupt=CORRUPT[c.prop])


def recorded(c, n):
    nd = c.path("recorded.nd")
    if c.driver(["gen-render", "--prop", c.prop, "--seed", str(c.seed), "--n", str(n),
                 "--out", nd, "--scratch", c.path("scratch")], "gen") is not None:
        c.validate("TraceRender", "recorded", nd, corrupt=CORRUPT[c.prop])


def S01(c):
    # any way of breaking lines is read as the content
    c.model("MCWriter", "writer", view="View", invariants=["NeverWrong", "Content"])
    files(c, "editor", c.scale(3, 4), 2, False, c.scale("78", "12,78"))
    files(c, "rich", c.scale(2, 3), 1, True, "0,14,78")
    recorded(c, c.scale(2500, 30000))
    lost_headers(c)


def S02(c):
    c.model("MCNatural", "order", invariants=["Antisymmetric", "EqualIsSame", "Transitive"],
            constants={"Alphabet": "{32, 48, 49, 50, 97}" if c.thorough else "{32, 48, 49, 97}",
                       "MaxLen": 3})
    files(c, "editor", c.scale(3, 4), 2, False, c.scale("78", "12,78"))
    files(c, "rich", c.scale(2, 3), 1, True, "0,14,78")
    recorded(c, c.scale(2500, 30000))
    lost_headers(c)


def S03(c):
    files(c, "editor", c.scale(2, 3), 2, False, "0,1,5,9,12,13,14,15,16,17,18,19,20,21,22,26,78")
    files(c, "rich", c.scale(2, 3), 1, True, "0,7,11,15,18,20,24,32")
    recorded(c, c.scale(4000, 50000))


def S04(c):
    c.model("MCNatural", "order", invariants=["Antisymmetric", "EqualIsSame", "Transitive"],
            constants={"Alphabet": "{32, 48, 50, 65, 97, 233}", "MaxLen": c.scale(2, 3)})
    out = c.model("MCMeta", "histories", invariants=["ReadBack", "Once", "Canonical"],
                  constants={"MaxOps": c.scale(3, 4), "Emit": "TRUE"})
    c.replay(["replay-meta", "--in", out], "replay-histories")
    out = c.model("MCHeader", "typed", invariants=["Printed", "PairsAgree", "OthersOnly"],
                  constants={"MaxLen": c.scale(6, 7), "Emit": "TRUE"})
    c.replay(["replay-po", "--in", out, "--prop", "S04", "--scratch", c.path("scratch")],
             "replay-typed")
    nd = c.path("recorded.nd")
    if c.driver(["gen-meta", "--seed", str(c.seed), "--n", str(c.scale(4000, 50000)),
                 "--out", nd], "gen") is not None:
        c.validate("TraceMeta", "recorded", nd, corrupt=corrupt_meta)
