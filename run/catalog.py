"""Files in memory: searches and changes (C01), merges (C02), status (C03),
order (C04), ways of supplying and saving (C05), conversions (C06)."""


def corrupt(case, i):
    t = case["t"]
    if t == "history":
        step = case["ops"][-1]
        if i % 2 == 0 and step["now"]:
            step["now"].pop()
        elif step["op"] == "views" and "pct" in step:
            step["pct"] = step["pct"] + 2 if step["pct"] < 99000 else 3
        else:
            step["rest"] = []
        return case
    if t == "order":
        m = case["m"]
        if i % 2 == 0:
            m[0][1] = 1 if m[0][1] != 1 else 0
        else:
            m[0][1], m[1][0] = m[1][0], m[0][1]
            if m[0][1] == 0:
                m[0][1], m[1][0] = 1, -1
        return case
    way = case["ways"][-1]
    if i % 2 == 0:
        way["w"] += 1
    elif way["r"]["ok"]:
        way["r"]["meta"].append([[120], [121]])
    else:
        way["r"]["ok"] = True
        way["r"].update(hdr=[], meta=[], fuzzy=False, ents=[], be=False, rev=0)
    return case


def recorded(c, n):
    nd = c.path("recorded.nd")
    if c.driver(["gen-catalog", "--prop", c.prop, "--seed", str(c.seed), "--n", str(n), "--out", nd,
                 "--scratch", c.path("scratch")], "gen") is not None:
        c.validate("TraceCatalog", "recorded", nd, corrupt=corrupt)


def many(c, mode, holds, powers):
    """Files of many messages."""
    out = c.model("MCMany", "many", invariants=["Printed", holds],
                  constants={"MaxPower": powers, "Mode": f'"{mode}"', "Emit": "TRUE"})
    c.replay([f"replay-{mode}", "--in", out], "replay-many")


def C01(c):
    for name, n, near in (("search", c.scale(3, 4), "FALSE"), ("near", c.scale(1, 2), "TRUE")):
        out = c.model("MCSearch", name, invariants=["Printed", "Consistent"],
                      constants={"MaxLen": n, "Emit": "TRUE", "Near": near})
        c.replay(["replay-search", "--in", out], f"replay-{name}")
    starts = [(c.scale(2, 3), "{1, 2, 3, 4}", "FALSE"), (c.scale(2, 3), "{2, 4}", "TRUE")]
    if not c.thorough:
        starts.append((3, "{1}", "FALSE"))
    for i, (n, st, near) in enumerate(starts):
        out = c.model("MCHistory", f"history-{i + 1}", invariants=["Printed", "RemovesRight"],
                      constants={"MaxOps": n, "Emit": "TRUE", "Starts": st, "Near": near})
        c.replay(["replay-history", "--in", out], f"replay-history-{i + 1}")
    many(c, "search", "Searched", c.scale(10, 12))
    recorded(c, c.scale(4000, 40000))


MERGE = ["Printed", "NothingLost", "NewOnes", "AllPresent", "Marks", "Again"]


def C02(c):
    for name, mine, theirs in (("two", 2, 2), ("three", 3, 1), ("ref", 1, 3)):
        if c.thorough:
            mine, theirs = (2, 3) if name == "ref" else (3, 2) if name == "three" else (2, 2)
        out = c.model("MCMerge", name, invariants=MERGE,
                      constants={"MaxLen": mine, "MaxRef": theirs, "Emit": "TRUE", "Near": "FALSE"})
        c.replay(["replay-merge", "--in", out], f"replay-{name}")
    out = c.model("MCMerge", "near", invariants=MERGE,
                  constants={"MaxLen": 2, "MaxRef": 1, "Emit": "TRUE", "Near": "TRUE"})
    c.replay(["replay-merge", "--in", out], "replay-near")
    many(c, "merge", "MergedAll", c.scale(8, 10))
    recorded(c, c.scale(1600, 16000))


def C03(c):
    out = c.model("MCStatus", "status",
                  invariants=["Printed", "Partition", "Separate", "CompiledIsTranslated", "Percents"],
                  constants={"MaxLen": c.scale(2, 3), "Emit": "TRUE"})
    c.replay(["replay-status", "--in", out], "replay-status")
    many(c, "status", "Viewed", c.scale(10, 12))
    recorded(c, c.scale(4000, 40000))


def C04(c):
    for mode in ("relations", "values"):
        out = c.model("MCOrder", mode, invariants=["Printed", "Opposite", "EqualIsSame", "Transitive"],
                      constants={"Emit": "TRUE", "Mode": f'"{mode}"'})
        c.replay(["replay-order", "--in", out], f"replay-{mode}")
    recorded(c, c.scale(12000, 100000))


def C05(c):
    out = c.model("MCDisk", "disk", invariants=["Printed", "Stable"],
                  constants={"MaxOps": c.scale(3, 4), "NPaths": 2, "Emit": "TRUE"})
    c.replay(["replay-disk", "--in", out, "--scratch", c.path("scratch")], "replay-disk")
    recorded(c, c.scale(3000, 30000))


def spoil(case, i):
    step = case["ops"][-1]
    if i % 3 == 0:
        step["po"]["flags"].append([120])
    elif i % 3 == 1:
        step["mkey"].append(4)
    else:
        step["shown"] = False
    return case


def C06(c):
    out = c.model("MCConvert", "convert",
                  invariants=["Printed", "Back", "SameKey", "Tells", "UndoesAll", "Untouched"],
                  constants={"MaxOps": 3, "Emit": "TRUE"})
    c.replay(["replay-convert", "--in", out], "replay-convert")
    nd = c.path("recorded.nd")
    if c.driver(["gen-convert", "--seed", str(c.seed), "--n", str(c.scale(4000, 40000)), "--out", nd],
                "gen") is not None:
        c.validate("TraceConvert", "recorded", nd, corrupt=spoil)
