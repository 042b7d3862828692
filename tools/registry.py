"""What each property's check runs."""


def geo(cmd, quick=None, thorough=None, profile="release"):
    def run(c):
        c.validate(c.harness("harness", profile, cmd, (quick if c.tier == "quick" else thorough) or {},
                             timeout=300 if c.tier == "quick" else 3000), "GeoTrace", timeout=600 if c.tier == "quick" else 6000)
    return run


def c04(c):
    big = c.tier == "thorough"
    # the library's debug constants make pier generation cheap: many shapes
    c.validate(c.harness("harness", "dbg", "failfast", {"shapes": 12000 if big else 1500, "worlds": 200 if big else 25}, name="failfast-dbg"), "GeoTrace", timeout=5000)
    # the release constants: no piers (fast), and a few shapes with piers
    c.validate(c.harness("harness", "release", "failfast", {"piers": 0, "shapes": 6000 if big else 600, "worlds": 200 if big else 30}, name="failfast-poles"), "GeoTrace", timeout=5000)
    c.validate(c.harness("harness", "release", "failfast", {"shapes": 150 if big else 16, "engine": 0}, name="failfast-piers", timeout=2000), "GeoTrace", timeout=5000)


def c02(c):
    big = c.tier == "thorough"
    c.model("EngineGen", "EngineGen.cfg")
    if big:
        c.model("QuadTree", "QuadTreeThree.cfg", timeout=3000, mem="8g", workers="8")
    c.model("EngineImpl", "EngineImplBig.cfg" if big else "EngineImpl.cfg")
    sched = c.simulate("EngineGen", "EngineGenSim.cfg", "sched.ndjson", 2000 if big else 200, 30)
    c.validate(c.harness("harness", "release", "engine", {"sched": sched, "runs": 3000 if big else 150, "keep": 600 if big else 45, "cells": 2}), "EngineTrace", timeout=5000)


def c05(c):
    big = c.tier == "thorough"
    for m in ("QuadTree",) + (("QuadTreeShapes", "QuadTreeAll", "QuadTreeThree", "QuadTreeDeep") if big else ()):
        c.model("QuadTree", m + ".cfg", timeout=3000, mem="8g", workers="8")
    geo("broad", {"worlds": 80}, {"worlds": 1500})(c)


def c06(c):
    big = c.tier == "thorough"
    c.model("EngineImpl", "EngineImplBig.cfg" if big else "EngineImpl.cfg")
    c.model("GridFill", "GridFill.cfg")
    if big:
        for m in ("GridFillLine", "GridFillTwo", "GridFillBig"):
            c.model("GridFill", m + ".cfg", timeout=3000, mem="8g", workers="8")
    sched = c.simulate("EngineGen", "EngineGenSim.cfg", "sched.ndjson", 2000 if big else 200, 30)
    c.validate(c.harness("harness", "release", "engine", {"sched": sched, "runs": 6000 if big else 350, "keep": 500 if big else 25, "grid": 100, "twin": 0, "acc": 3, "cells": 6}, timeout=1500), "EngineTrace", timeout=5000)


PROPS = {
    "C02": {"run": c02},
    "C06": {"run": c06},
    "C01": {"run": geo("collide", {"worlds": 250}, {"worlds": 4000})},
    "C03": {"run": geo("collect", {"worlds": 200}, {"worlds": 3000})},
    "C04": {"run": c04},
    "C05": {"run": c05},
    "C07": {"run": geo("quality", {"worlds": 80}, {"worlds": 1500})},
}


def c11(c):
    big = c.tier == "thorough"
    c.model("LayoutGen", "LayoutGen.cfg")
    sched = c.simulate("LayoutGen", "LayoutGenSim.cfg", "sched.ndjson", 2000 if big else 200, 32)
    c.validate(c.harness("harness", "release", "layout", {"sched": sched, "runs": 2500 if big else 120, "keep": 500 if big else 40}), "LayoutTrace", timeout=5000)


PROPS["C11"] = {"run": c11}


def bp(mode, quick, thorough):
    def run(c):
        big = c.tier == "thorough"
        c.model("MCPack", "MCPackBins.cfg")
        c.model("MCPack", "MCPack.cfg" if big else "MCPackQuick.cfg", timeout=1500, mem="8g", workers="8")
        sched = c.simulate("MCPack", "MCPackSim.cfg", "sched.ndjson", 2000 if big else 200, 36)
        kv = {"sched": sched}
        kv.update(thorough if big else quick)
        c.validate(c.harness("harness", "release", "bp", kv), "PackTrace", env={"MODE": mode}, timeout=5000)
    return run


PROPS["C08"] = {"run": bp("acct", {"runs": 150}, {"runs": 2500})}
PROPS["C09"] = {"run": bp("restore", {"runs": 250, "keep": 30, "eng": 1}, {"runs": 2500, "keep": 500, "eng": 1})}
def c19(c):
    bp("stats", {"runs": 60}, {"runs": 1500})(c)
    big = c.tier == "thorough"
    c.validate(c.harness("harness", "release", "strip", {"runs": 1500 if big else 60, "eng": 0}), "StripTrace", env={"MODE": "stats"}, timeout=5000)


PROPS["C19"] = {"run": c19}


def c10(c):
    big = c.tier == "thorough"
    c.model("MCStrip", "MCStrip.cfg")
    sched = c.simulate("MCStrip", "MCStripSim.cfg", "sched.ndjson", 2000 if big else 200, 46)
    c.validate(c.harness("harness", "release", "strip", {"sched": sched, "runs": 2500 if big else 120, "keep": 600 if big else 50}), "StripTrace", env={"MODE": "strip"}, timeout=5000)


PROPS["C10"] = {"run": c10}


def io(cmd, quick, thorough, profile="release"):
    def run(c):
        c.validate(c.harness("harness", profile, cmd, {"runs": thorough if c.tier == "thorough" else quick}, timeout=3000), "IoTrace", timeout=5000)
    return run


PROPS["C12"] = {"run": io("roundtrip", 2500, 40000)}
PROPS["C13"] = {"run": io("parse", 3000, 50000)}


def c17(c):
    big = c.tier == "thorough"
    c.validate(c.harness("harness", "release", "measure", {"prims": 200000 if big else 12000, "polys": 4000 if big else 200}, timeout=1500), "ShapeTrace", timeout=5000)


def c14(c):
    big = c.tier == "thorough"
    c.validate(c.harness("harness", "release", "simplify", {"shapes": 2000000 if big else 100000, "keep": 25, "parsed": 1000 if big else 50}, timeout=1500), "ShapeTrace", timeout=5000)


def c18(c):
    big = c.tier == "thorough"
    c.model("RigidGen", "RigidGen.cfg" if big else "RigidGenQuick.cfg")
    sched = c.simulate("RigidGen", "RigidGenSim.cfg", "sched.ndjson", 1500 if big else 60, 20)
    c.validate(c.harness("harness", "release", "transf", {"sched": sched, "runs": 40000 if big else 3000, "shapes": 3000 if big else 150}), "TransfTrace", timeout=5000)


PROPS["C14"] = {"run": c14}
PROPS["C17"] = {"run": c17}
PROPS["C18"] = {"run": c18}


def lbf(cmd, module, quick, thorough):
    def run(c):
        kv = thorough if c.tier == "thorough" else quick
        c.validate(c.harness("harness-lbf", "release", cmd, kv, timeout=600 if c.tier == "quick" else 4000), module, timeout=5000)
    return run


PROPS["C15"] = {"run": lbf("solve", "LbfTrace", {"runs": 1500, "cli": 24}, {"runs": 40000, "cli": 300})}
PROPS["C16"] = {"run": lbf("repeat", "LbfTrace", {"runs": 64, "cli": 24}, {"runs": 1500, "cli": 300})}
PROPS["C20"] = {"run": lbf("draw", "SvgTrace", {"runs": 1500}, {"runs": 30000})}


def c21(c):
    big = c.tier == "thorough"
    c.model("SearchGen", "SearchGenBig.cfg" if big else "SearchGen.cfg")
    lbf("search", "SearchTrace", {"worlds": 1200}, {"worlds": 40000})(c)


PROPS["C21"] = {"run": c21}


def c22(c):
    big = c.tier == "thorough"
    c.model("MCRefusal", "MCRefusal.cfg")
    sched = c.simulate("MCRefusal", "MCRefusalSim.cfg", "sched.ndjson", 3000 if big else 300, 30)
    c.validate(c.harness("harness", "release", "refuse", {"sched": sched, "runs": 20000 if big else 1200}, timeout=2000), "RefusalTrace", timeout=5000)


PROPS["C22"] = {"run": c22}


def c23(c):
    big = c.tier == "thorough"
    c.model("MCProgram", "MCProgramBig.cfg" if big else "MCProgram.cfg")
    sched = c.simulate("MCProgram", "MCProgramSim.cfg", "sched.ndjson", 800 if big else 48, 8)
    c.validate(c.harness("harness-lbf", "release", "program", {"sched": sched, "runs": 2000 if big else 64}, timeout=600 if not big else 4000), "ProgramTrace", timeout=5000)


PROPS["C23"] = {"run": c23}


from meta import META  # noqa: E402
for _p in PROPS:
    PROPS[_p].update(META[_p])
