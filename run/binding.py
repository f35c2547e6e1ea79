"""The Python module: the same as the library (B01), values and sequences (B02)."""


def corrupt(case, i):
    if case["t"] == "call":
        py = case["py"]
        if py["exc"]:
            if i % 2:
                py["msg"].append(46)
            else:
                py["exc"] = "builtins.ValueError"
        elif case["rust"]["ok"]:
            py["v"] = py["v"][:-1] if py["v"] else [120]
        return case
    step = case["ops"][-1]
    if i % 5 == 0:
        step["dig"][0] = "0"
    elif i % 5 == 1:
        step["seq"]["ways"][2] = "0"
    elif i % 5 == 2:
        step["eq"][-1][0] = not step["eq"][-1][0]
    elif i % 5 == 3:
        step["now"]["width"] += 1
    else:
        step["now"]["meta"].append([[120], [121]])
    return case


def recorded(c, n):
    nd, out = c.path("sessions.nd"), c.path("recorded.nd")
    if c.driver(["gen-binding", "--seed", str(c.seed), "--n", str(n), "--out", nd,
                 "--scratch", c.path("scratch")], "gen") is None:
        return
    if c.python(["record", "--in", nd, "--out", out], "record") is None:
        return
    c.validate("TraceBinding", "recorded", out, corrupt=corrupt)


def B01(c):
    out = c.model("MCConstruct", "construct", invariants=["Printed"], constants={"Emit": "TRUE"})
    c.replay_python("construct", out, "python-construct")
    for name, n, near in (("search", 2, "FALSE"), ("near", 1, "TRUE")):
        out = c.model("MCSearch", name, invariants=["Printed", "Consistent"],
                      constants={"MaxLen": n, "Emit": "TRUE", "Near": near})
        c.replay_python("search", out, f"python-{name}")
    for mode, holds, n in (("search", "Searched", c.scale(8, 10)), ("status", "Viewed", c.scale(8, 10)),
                           ("merge", "MergedAll", c.scale(4, 6))):
        out = c.model("MCMany", f"many-{mode}", invariants=["Printed", holds],
                      constants={"MaxPower": n, "Mode": f'"{mode}"', "Emit": "TRUE"})
        c.replay_python(mode, out, f"python-many-{mode}")
    out = c.model("MCHistory", "history", invariants=["Printed", "RemovesRight"],
                  constants={"MaxOps": 2, "Emit": "TRUE", "Starts": c.scale("{2, 3}", "{1, 2, 3, 4}"),
                             "Near": "FALSE"})
    c.replay_python("history", out, "python-history")
    out = c.model("MCStatus", "status", invariants=["Printed", "Partition"],
                  constants={"MaxLen": c.scale(1, 2), "Emit": "TRUE"})
    c.replay_python("status", out, "python-status")
    out = c.model("MCMerge", "merge", invariants=["Printed"],
                  constants={"MaxLen": 1, "MaxRef": 1, "Emit": "TRUE", "Near": "FALSE"})
    c.replay_python("merge", out, "python-merge")
    for mode in ("relations", "values"):
        out = c.model("MCOrder", mode, invariants=["Printed", "Opposite"],
                      constants={"Emit": "TRUE", "Mode": f'"{mode}"'})
        c.replay_python("order", out, f"python-{mode}")
    out = c.model("MCReader", "documents", invariants=["TypeOK"],
                  constants={"MaxLen": c.scale(2, 3), "Emit": "TRUE", "Kinds": '{"wf", "mf"}',
                             "Clean": "FALSE"})
    c.replay_python("documents", out, "python-documents")
    out = c.model("MCDamage", "images", invariants=["Printed"],
                  constants={"Emit": "TRUE", "MaxChanges": 1, "Wide": c.scale("FALSE", "TRUE")})
    c.replay_python("images", out, "python-images")
    out = c.model("MCLinker", "linked", invariants=["Printed"],
                  constants={"Emit": "TRUE", "MaxOdd": 1, "Catalogs": "{1, 2, 3, 4, 5}"})
    c.replay_python("images", out, "python-linked")
    out = c.model("MCEscape", "escapes", invariants=["Undoes"],
                  constants={"Alphabet": "{92, 34, 110, 9, 10, 113, 233}", "MaxLen": 4, "Emit": "TRUE"})
    c.replay_python("escapes", out, "python-escapes")
    c.tally(c.python(["limits"], "limits"), "limits")
    recorded(c, c.scale(3000, 30000))


def B02(c):
    out = c.model("MCAlias", "all", invariants=["Printed"], properties=["Framed"],
                  constants={"MaxOps": 3, "Emit": "TRUE", "Ended": "FALSE"})
    c.replay_python("alias", out, "python-all")
    # longer ones
    out = c.model("MCAlias", "long", invariants=["Printed"], simulate=(c.scale(400, 4000), 16),
                  constants={"MaxOps": 15, "Emit": "TRUE", "Ended": "TRUE"})
    c.replay_python("alias", out, "python-long")
    recorded(c, c.scale(1500, 15000))
