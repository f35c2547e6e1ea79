"""Layouts of PO documents (P04) and escapes (P05)."""


def corrupt_pair(case, i):
    if not case["rb"]["ok"]:
        return None
    if i % 2 or not case["rb"]["ents"]:
        case["rb"]["fuzzy"] = not case["rb"]["fuzzy"]
    else:
        case["rb"]["ents"][-1]["id"].append(120)
    return case


def P04(c):
    # every layout within some oddities of the usual one
    out = c.model("MCLayout", "typist", invariants=["NeverWrong", "SameContent", "SameText"],
                  constants={"MaxOdd": c.scale(2, 3), "Emit": "TRUE"})
    c.replay(["replay-layout", "--in", out, "--scratch", c.path("scratch")], "replay-typist")
    # layouts full of oddities
    out = c.model("MCLayout", "sloppy", invariants=["NeverWrong", "SameContent", "SameText"],
                  simulate=(c.scale(60, 600), 40), constants={"MaxOdd": 40, "Emit": "TRUE"})
    c.replay(["replay-layout", "--in", out, "--scratch", c.path("scratch")], "replay-sloppy")
    # texts in many lines, and other big documents
    out = c.model("MCScale", "big", invariants=["Printed"],
                  constants={"Small": "FALSE", "All": "FALSE", "Breaks": "{0}",
                             "Big": c.scale(300, 4000)})
    c.replay(["replay-layout", "--in", out, "--scratch", c.path("scratch")], "replay-big")
    nd = c.path("pairs.nd")
    if c.driver(["gen-layout", "--seed", str(c.seed), "--n", str(c.scale(2000, 30000)), "--out", nd,
                 "--scratch", c.path("scratch")], "gen") is not None:
        c.validate("TraceLayout", "pairs", nd, corrupt=corrupt_pair)


def corrupt_escape(case, i):
    if i % 3 == 0:
        case["e"].append(120)
    elif i % 3 == 1:
        case["ue"]["kind"] = "end"
    else:
        case["u"] = {"kind": "panic", "text": [], "char": 0}
    return case


INV = ["Undoes", "Clean", "FailsRight", "Canonical", "Pieces"]


def P05(c):
    wide = "{92, 34, 110, 114, 116, 98, 118, 102, 9, 10, 13, 8, 17, 18, 113, 233}"
    out = c.model("MCEscape", "wide", invariants=INV,
                  constants={"Alphabet": wide, "MaxLen": c.scale(4, 5), "Emit": "TRUE"})
    c.replay(["replay-escape", "--in", out], "replay-wide")
    # runs of backslashes
    out = c.model("MCEscape", "runs", invariants=INV,
                  constants={"Alphabet": "{92, 34, 110, 10}", "MaxLen": c.scale(8, 9),
                             "Emit": "TRUE"})
    c.replay(["replay-escape", "--in", out], "replay-runs")
    # each character of Unicode blocks that are near the special ones
    out = c.model("MCEscape", "chars", invariants=INV,
                  constants={"Alphabet": "<- Characters",
                             "MaxLen": 1, "Emit": "TRUE"})
    c.replay(["replay-escape", "--in", out], "replay-chars")
    nd = c.path("texts.nd")
    if c.driver(["gen-escape", "--seed", str(c.seed), "--n", str(c.scale(5000, 60000)),
                 "--out", nd], "gen") is not None:
        c.validate("TraceEscape", "recorded", nd, corrupt=corrupt_escape)
