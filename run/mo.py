"""MO images: well-formed (M01), read back (M02), damaged (M03), compiled (M04)."""


def corrupt_image(case, i):
    b = case["b"]
    if case["t"] != "write" or len(b) < 60:
        return None
    if i % 3 == 0:
        b[8] ^= 1
    elif i % 3 == 1:
        b.pop()
    else:
        b[4] ^= 2
    return case


def corrupt_read(case, i):
    if not case["r"]["ok"]:
        case["r"]["kind"] = "panic"
    elif i % 3 == 0:
        case["r"]["be"] = not case["r"]["be"]
    elif i % 3 == 1 and case["r"]["ents"]:
        case["r"]["ents"][0]["id"].append(120)
    else:
        case["r"]["meta"].append([[120], [121]])
    return case


def corrupt_compiled(case, i):
    if case["t"] != "compile":
        return None
    if i % 3 == 0:
        case["back"]["meta"].append([[120], [121]])
    elif i % 3 == 1 and case["r"]["ents"]:
        case["r"]["ents"].pop()
    elif case["found"]:
        case["found"][0] = case["found"][0] + [{"id": [], "str": [], "pl": [], "strs": [], "ctx": []}]
    else:
        return None
    return case


CORRUPT = {"M01": corrupt_image, "M02": corrupt_read, "M03": corrupt_read, "M04": corrupt_compiled}
LINKER = ["Printed", "ReadsCatalog", "GoodImage"]
DAMAGE = ["Printed", "GoodIsRead", "CutIsNoticed", "InsideOnly"]


def recorded(c, n, mem_gb=6):
    nd = c.path("recorded.nd")
    if c.driver(["gen-mo", "--prop", c.prop, "--seed", str(c.seed), "--n", str(n), "--out", nd,
                 "--scratch", c.path("scratch")], "gen", mem_gb=mem_gb) is not None:
        c.validate("TraceMo", "recorded", nd, corrupt=CORRUPT[c.prop])


def linked(c, name, catalogs, odd):
    """Images made by the linker. The library has to read them."""
    return c.model("MCLinker", name, invariants=LINKER,
                   constants={"Emit": "TRUE", "MaxOdd": odd, "Catalogs": catalogs})


def written(c, out, name, step=1):
    """The catalogs, written by the library."""
    nd = c.path(f"{name}.nd")
    if c.driver(["rewrite-mo", "--in", out, "--out", nd, "--step", str(step),
                 "--scratch", c.path("scratch")], f"write-{name}") is not None:
        c.validate("TraceMo", f"written-{name}", nd, corrupt=CORRUPT[c.prop])


def M01(c):
    out = linked(c, "linker", "{1, 2, 3, 4, 5}", 0)
    written(c, out, "linker")
    # sets of messages in all the orders
    out = c.model("MCCatalog", "catalogs", invariants=["Printed", "Ordered"],
                  constants={"Emit": "TRUE", "MaxEntries": c.scale(2, 3)})
    written(c, out, "catalogs", step=16)
    recorded(c, c.scale(2500, 30000))


def M02(c):
    out = linked(c, "linker", "{1, 2, 3, 4, 5}", c.scale(2, 3))
    c.replay(["replay-mo", "--in", out, "--scratch", c.path("scratch")], "replay-linker")
    written(c, out, "linker")
    out = c.model("MCCatalog", "catalogs", invariants=["Printed", "Ordered"],
                  constants={"Emit": "TRUE", "MaxEntries": c.scale(2, 3)})
    written(c, out, "catalogs", step=16)
    recorded(c, c.scale(2500, 30000))


def M03(c):
    out = c.model("MCDamage", "one", invariants=DAMAGE,
                  constants={"Emit": "TRUE", "MaxChanges": 1, "Wide": "TRUE"})
    c.replay(["replay-mo", "--in", out, "--scratch", c.path("scratch")], "replay-one", mem_gb=1)
    out = c.model("MCDamage", "two", invariants=DAMAGE,
                  constants={"Emit": "TRUE", "MaxChanges": 2, "Wide": c.scale("FALSE", "TRUE")})
    c.replay(["replay-mo", "--in", out, "--scratch", c.path("scratch")], "replay-two", mem_gb=1)
    out = c.model("MCBytes", "bytes", invariants=["Printed", "OneText", "Written", "LossyRight"],
                  constants={"Target": '"mo"', "Alphabet": "<- Classes", "MaxLen": c.scale(3, 4),
                             "Emit": "TRUE"})
    c.replay(["replay-mo", "--in", out, "--scratch", c.path("scratch")], "replay-bytes", mem_gb=1)
    recorded(c, c.scale(6000, 60000), mem_gb=1)


def M04(c):
    for name, entries, few in (("single", 1, "FALSE"), ("several", c.scale(2, 3), "TRUE")):
        out = c.model("MCCompile", name, invariants=["Printed", "Usable"],
                      constants={"Emit": "TRUE", "MaxEntries": entries, "Few": few})
        nd = c.path(f"{name}.nd")
        if c.driver(["compile-mo", "--in", out, "--out", nd, "--scratch", c.path("scratch")],
                    f"compile-{name}") is not None:
            c.validate("TraceMo", f"compiled-{name}", nd, corrupt=CORRUPT["M04"])
    recorded(c, c.scale(2500, 30000))
