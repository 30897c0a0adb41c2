"""One function per property: what is built, run and validated."""
import json
import os
import random

import vlib

SYS = ["system.cpp"]
LIB = ["system.cpp", "umpireInterface.cpp"]
NOTES = {}      # additions to level_note


def C14(c):
    """spec/Bounds.tla, spec/Vast.tla (indices beyond 32 bits)"""
    paths = c.model("BoundsMC", "BoundsMC.cfg", workers=4, emit=True)
    builds = {3: ["asan"], 1: ["relb"], 2: ["asan-nb"], 0: ["asan-rel"]}     # which checks are on: 1 bounds, 2 debug
    s = {k: c.scripts([p for p in paths if p and p[0]["checks"] == k], name="checks-%d" % k) for k in builds}
    parts = range(4)
    ex = c.build.drivers([("bounds@%d" % p, v, LIB, ["-DVP_PART=%d" % p]) for p in parts for vs in builds.values() for v in vs])
    runs = []
    for k, vs in builds.items():
        for v in vs:
            for p in parts:
                runs.append((ex["bounds@%d" % p, v], ["--script", s[k], "--seed", c.seed + p], "specification calls, part %d %s" % (p, v)))
    for p in parts:
        runs.append((ex["bounds@%d" % p, "asan"], ["--script", s[3], "--seed", c.seed + p, "--mode", "chain", "--n", 300 if c.thorough else 40, "--len", 60], "random part %d" % p))
    c.validate("BoundsTrace", c.run_all(runs), require=["begin", "call"])
    vast(c, "relb", "checked")


def C18(c):
    """spec/TextIO.tla"""
    paths = c.model("TextIOMC", "TextIOMC_thorough.cfg" if c.thorough else "TextIOMC.cfg", workers=8, emit=True)
    ex = c.build.drivers([("text@%d" % p, v, LIB, ["-DVP_PART=%d" % p]) for p in (0, 1) for v in ("asan", "asan-rel")])
    s = c.scripts(paths)
    runs = [(ex["text@%d" % p, v], ["--script", s, "--seed", c.seed + p], "specification texts, part %d %s" % (p, v)) for p in (0, 1) for v in ("asan", "asan-rel")]
    runs += [(ex["text@%d" % p, v], ["--seed", c.seed + k, "--n", 400 if c.thorough else 60, "--len", 20], "random part %d %s %d" % (p, v, k))
             for p in (0, 1) for v in ("asan", "asan-rel") for k in range(4 if c.thorough else 1)]
    c.validate("TextIOTrace", c.run_all(runs), require=["read", "fill", "print", "set", "rows", "matrix", "table", "c1", "c2"])


def C19(c):
    """spec/TensorOps.tla"""
    paths = c.model("TensorOpsMC", "TensorOpsMC_thorough.cfg" if c.thorough else "TensorOpsMC.cfg", workers=8, emit=True)
    vs = ("asan", "asan-rel")
    ex = c.build.drivers([("tensor@%d" % p, v, LIB, ["-DVP_PART=%d" % p, "-DVP_WAYS=%d" % k]) for p in range(4) for k, v in enumerate(vs)])
    s = c.scripts(paths)
    runs = [(ex["tensor@%d" % p, v], ["--script", s, "--seed", c.seed + 3 * k, "--n", 4 if c.thorough else 1], "specification cases, part %d %s" % (p, v))
            for p in range(4) for k, v in enumerate(vs)]
    runs += [(ex["tensor@%d" % p, "asan"], ["--script", s, "--mode", "sizes"], "operands of another size, part %d" % p) for p in range(4)]
    c.validate("TensorOpsTrace", c.run_all(runs), require=["begin", "call", "mismatch"])


def C28(c):
    """spec/Eigen.tla"""
    paths = c.model("EigenMC", "EigenMC_thorough.cfg" if c.thorough else "EigenMC.cfg", workers=1, emit=True)
    vs = ("asan", "rel", "clangrel")
    ex = c.build.drivers([("eigen", v, LIB, []) for v in vs])
    s = c.scripts(paths)
    runs = [(ex["eigen", v], ["--script", s], "matrices of the specification, " + v) for v in (vs if not c.thorough else ("rel", "asan"))]
    runs += [(ex["eigen", v], ["--seed", c.seed * 10 + k, "--n", 60000 if c.thorough else 6000], "random matrices, " + v) for k, v in enumerate(vs)]
    c.validate("EigenTrace", c.run_all(runs), require=["eigen"])


def C24(c):
    """spec/MemCopy.tla"""
    paths = c.model("MemCopyMC", "MemCopyMC_thorough.cfg" if c.thorough else "MemCopyMC.cfg", workers=8, emit=True)
    kinds = [("memcopy@int", "asan", "int", "int"), ("memcopy@double", "umpire", "double", "long"), ("memcopy@char", "asan-rel", "char", "short")]
    ex = c.build.drivers([(n, v, LIB, ["-DVP_PART=0", "-DVP_CELL=" + t, "-DVP_INDEX=" + i]) for n, v, t, i in kinds] +
                         [("memcopy@view", v, LIB, ["-DVP_PART=1"]) for v in ("asan", "asan-rel", "chai")])
    s = c.scripts(paths)
    m = 8 if c.thorough else 1
    runs = [(ex[n, v], ["--script", s, "--seed", c.seed + k + 5 * j], "copies of %s, %s" % (t, v)) for k, (n, v, t, i) in enumerate(kinds) for j in range(m)]
    runs += [(ex["memcopy@view", v], ["--script", s, "--seed", c.seed + k + j], "views, " + v) for k, v in enumerate(("asan", "asan-rel", "chai")) for j in range(m)]
    c.validate("MemCopyTrace", c.run_all(runs), require=["copy", "inside", "viewed", "back", "write"])


def C11(c):
    """spec/Conc.tla"""
    two = c.model("ConcMC", "ConcMC.cfg", workers=8, emit=True)
    three = c.model("ConcMC", "ConcMC_three.cfg", workers=8, emit=True)
    if c.thorough:
        c.model("ConcMC", "ConcMC_thorough.cfg", workers=8)
    kinds = [("num", "rel", "Cell", "Num", "int"), ("mixed", "relb", "Cell", "double", "long"), ("plain", "dbg", "int", "Num", "short"), ("clang", "clangrel", "Cell", "float", "int")]
    free = [("one", "tsan", "long", "double", "long"), ("two", "tsan", "double", "int", "int")]
    ex = c.build.drivers([("conc@" + n, v, LIB, ["-DVP_V=" + a, "-DVP_E=" + b, "-DVP_C=" + t]) for n, v, a, b, t in kinds + free])
    a = c.scripts(two, 17000 if c.thorough else 1500, name="script-two")
    b = c.scripts(three, 3000 if c.thorough else 600, name="script-three")
    runs = []
    for k, (n, v, _, _, _) in enumerate(kinds):
        e = ex["conc@" + n, v]
        if k == 0 or c.thorough:
            runs += [(e, ["--script", a, "--seed", c.seed], "schedules of two threads, " + n), (e, ["--script", b, "--seed", c.seed], "schedules of three threads, " + n)]
        for j in range(10 if c.thorough else 2):
            runs.append((e, ["--seed", c.seed * 100 + 10 * k + j, "--n", 300 if c.thorough else 130, "--len", 3], "random schedules " + n))
    for k, (n, v, _, _, _) in enumerate(free):
        for j in range(4 if c.thorough else 1):
            runs.append((ex["conc@" + n, v], ["--mode", "free", "--seed", c.seed * 100 + 10 * k + j, "--n", 300 if c.thorough else 80, "--len", 8], "free threads " + n))
    c.validate("ConcTrace", c.run_all(runs), require=["step", "final", "free"], chunk=2500)


def C12(c):
    """spec/MemSpaces.tla"""
    paths = c.model("MemSpacesMC", "MemSpacesMC.cfg", workers=8, emit=True)
    if c.thorough:
        c.model("MemSpacesMC", "MemSpacesMC_thorough.cfg", workers=8)
    ex = c.build.drivers([("memspaces@" + t, "chai", LIB, ["-DVP_T=" + t]) for t in ("long", "Str")])
    runs = []
    for k, kind in enumerate(["array", "table", "sorted", "nested", "aoa", "aos", "sparse", "crs"]):
        s = c.scripts([p for p in paths if p[0]["kind"] == kind], 5000 if c.thorough else 250, name="script-" + kind)
        for j, t in enumerate(("long", "Str")):
            exe = ex["memspaces@" + t, "chai"]
            if c.thorough or j == k % 2:
                runs.append((exe, ["--script", s, "--seed", c.seed], "specification paths, %s of %s" % (kind, t)))
            for i in range(6 if c.thorough else 1):
                runs.append((exe, ["--seed", c.seed * 100 + 10 * i + j, "--n", 300 if c.thorough else 50, "--len", 40, "--mode", kind], "random %s of %s" % (kind, t)))
    c.validate("MemSpacesTrace", c.run_all(runs), require=["take", "move", "capture", "kernel", "write", "touch", "zero", "fill", "deviceFill", "memcpy", "copy", "moveInto", "swap",
                                                           "free", "resize", "inner", "append", "erase", "clear", "capacity", "insert", "remove", "reserve", "compress"], chunk=1200)


def C15(c):
    """spec/IntConv.tla"""
    c.model("IntConvMC", "IntConvMC_thorough.cfg" if c.thorough else "IntConvMC.cfg", workers=4)
    ex = c.build.drivers([("intconv", "asan", SYS, []), ("intconv", "rel", SYS, [])])
    runs = [(ex["intconv", "asan"], ["--seed", c.seed, "--n", 40], "boundaries asan"),
            (ex["intconv", "rel"], ["--seed", c.seed + 1, "--n", 40], "boundaries release"),
            (ex["intconv", "asan"], ["--seed", c.seed, "--n", 40, "--mode", "odd"], "character types"),
            (ex["intconv", "rel"], ["--mode", "small"], "all 8-bit values")]
    if c.thorough:
        runs += [(ex["intconv", "rel"], ["--mode", "small16"], "all 16-bit values")]
        runs += [(ex["intconv", "rel"], ["--seed", c.seed * 100 + k, "--n", 300], "random %d" % k) for k in range(4)]
    c.validate("IntConvTrace", c.run_all(runs), require=["conv"])


TV = ["totalview/tv_data_display.c"]
TVA = SYS + TV


def C22(c):
    """spec/TvDisplay.tla, spec/Describe.tla"""
    paths = c.model("TvDisplayMC", "TvDisplayMC.cfg", workers=1, emit=True)
    ex = c.build.drivers([("tv", "asan", TV, []), ("tv", "rel", TV, [])])
    s = c.scripts(paths, 4000 if c.thorough else 250)
    n = 120 if c.thorough else 14
    runs = [(ex["tv", v], ["--script", s], "specification paths " + v) for v in ("asan", "rel")]
    runs += [(ex["tv", "asan"], ["--seed", c.seed * 10 + k, "--n", n, "--len", 40], "random %d" % k) for k in range(3)]
    runs += [(ex["tv", "rel"], ["--seed", c.seed * 10 + 7, "--n", n, "--len", 40], "random release")]
    c.validate("TvDisplayTrace", c.run_all(runs, timeout=60), require=["row", "pre", "post", "okcode"], chunk=600)
    shows(c, 400 if c.thorough else 40)


def shows(c, n):
    kinds = ("tv", "tvrel", "tvnb")
    ex = c.build.drivers([("tvarray", v, TVA, []) for v in kinds])
    runs = [(ex["tvarray", v], ["--seed", c.seed * 10 + k, "--n", n], "arrays and slices displayed, %s" % v) for k, v in enumerate(kinds)]
    c.validate("DescribeTrace", c.run_all(runs), require=["show"])


def C27(c):
    """spec/Describe.tla"""
    c.model("DescribeMC", "DescribeMC.cfg", workers=4)
    ex = c.build.drivers([("describe", "asan", SYS, []), ("describe", "rel", SYS, [])])
    n = 6000 if c.thorough else 500
    runs = []
    for k, v in enumerate(("asan", "rel")):
        runs += [(ex["describe", v], ["--seed", c.seed * 10 + k, "--n", 2 * n, "--mode", "sizes"], "sizes " + v),
                 (ex["describe", v], ["--seed", c.seed * 10 + k + 5, "--n", n // 4], "names " + v)]
    c.validate("DescribeTrace", c.run_all(runs), require=["size", "demangle", "format"])



PY_OPS = ["wrap", "drop", "level", "native", "text", "py", "item", "look", "poke", "forget", "call", "bare", "repr", "convert", "scalar", "parse", "show", "typename", "module", "constants", "ref", "rounds", "cupy", "unmade"]


def C29(c):
    """spec/PyMirror.tla, spec/PyRefs.tla"""
    paths = c.model("PyMirrorMC", "PyMirrorMC_thorough.cfg" if c.thorough else "PyMirrorMC.cfg", workers=1, emit=True, timeout=900)
    wide = c.model("PyMirrorMC", "PyMirrorMC_wide.cfg", workers=1, emit=True)
    refs = c.model("PyRefsMC", "PyRefsMC.cfg", workers=1, emit=True)
    libs = SYS + ["python/*.cpp"]
    ex = c.build.drivers([("pymirror", v, libs, []) for v in ("asan", "rel")])
    many = 30000 if c.thorough else 2000
    s = [c.jsonScripts(paths, many, "deep"), c.jsonScripts(wide, many, "wide"), c.jsonScripts(refs, many // 2, "refs")]
    few = [c.jsonScripts(p, 2000 if c.thorough else 120, n) for p, n in ((paths, "deep-leaks"), (wide, "wide-leaks"), (refs, "refs-leaks"))]
    base = ["--py", os.path.join(vlib.HARNESS, "pymirror.py"), "--site", vlib.SITE, "--repo", vlib.REPO]
    runs = []
    n = 1600 if c.thorough else 128
    for v, env in (("asan", {"PYTHONMALLOC": "malloc"}), ("rel", None)):
        runs += [(ex["pymirror", v], base + ["--script", f], "specification paths %s" % v, env) for f in s]
        runs += [(ex["pymirror", v], base + ["--n", n, "--len", 40, "--seed", c.seed * 10 + k], "random %s" % v, env) for k in range(2)]
    runs += [(ex["pymirror", "rel"], base + ["--leak", 1, "--script", f], "leaks, specification paths") for f in few]
    runs += [(ex["pymirror", "rel"], base + ["--leak", 1, "--n", n // 4, "--len", 40, "--seed", c.seed * 10 + k + 5], "leaks, random") for k in range(2)]
    c.validate("PyMirrorTrace", c.run_all(runs, timeout=600 if c.thorough else 240), require=PY_OPS)


def C31(c):
    """spec/Access.tla"""
    paths = c.model("AccessMC", "AccessMC_thorough.cfg" if c.thorough else "AccessMC.cfg", workers=1, emit=True)
    perms = c.model("PermMC", "PermMC.cfg", workers=1, emit=True)
    fams = sorted(set(p["fam"] for p in paths))
    random.Random(c.seed).shuffle(paths)
    paths.sort(key=lambda p: len(p["path"]))
    todo = [{"fam": f, "path": []} for f in fams] + paths[:16000] + perms
    script = os.path.join(c.work, "handles.jsonl")
    with open(script, "w") as o:
        for t in todo:
            o.write(json.dumps(t) + "\n")
    c.notes.append("%d of %d handles and refused conversions, %d sequences of dimensions offered to the compiler" % (min(16000, len(paths)) + len(fams), len(paths) + len(fams), len(perms)))
    runs = []
    for v in ("rel", "clang") if c.thorough else ("rel",):
        cxx, flags, config = vlib.VARIANTS[v]
        objs = [c.build.compile(f, v) for f in (os.path.join(vlib.SRC, "system.cpp"), os.path.join(vlib.SRC, "umpireInterface.cpp"))]
        cmd = [cxx, "-std=c++14", "-w"] + flags + ["-O0", "-ferror-limit=0" if cxx == "clang++" else "-fmax-errors=0", "-I" + c.build.config_dir(config), "-I" + vlib.SHIM, "-I" + vlib.SRC]
        runs.append((os.path.join(vlib.HARNESS, "access.py"), ["--script", script, "--cxx", " ".join(cmd), "--link", " ".join(objs + ["-ldl", "-pthread", "-rdynamic"]), "--work", os.path.join(c.work, "access-" + v)], "handles and permutations %s" % v))
    c.validate("AccessTrace", c.run_all(runs, timeout=800), require=["handle", "perm"])


def C16(c):
    """spec/ErrMacros.tla"""
    paths = c.model("ErrMacrosMC", "ErrMacrosMC.cfg", workers=1, emit=True)
    ex = c.build.drivers([("errmacros", v, SYS, []) for v in ("dbgnb", "rel")])
    s = c.scripts(paths, 6000 if c.thorough else 900)
    n = 1200 if c.thorough else 60
    runs = []
    for k, v in enumerate(("dbgnb", "rel")):
        runs.append((ex["errmacros", v], ["--script", s, "--seed", c.seed], "specification paths " + v))
        runs.append((ex["errmacros", v], ["--seed", c.seed * 10 + k, "--n", n, "--len", 25], "random " + v))
    c.validate("ErrMacrosTrace", c.run_all(runs), require=["macro", "set", "setnull", "call", "log"])


def C17(c):
    """spec/FpEnv.tla"""
    paths = c.model("FpEnvMC", "FpEnvMC.cfg", workers=1, emit=True)
    c.model("FpEnvMC", "FpEnvMC_all.cfg", workers=8)
    vs = ("rel", "dbgnb", "clangrel")
    ex = c.build.drivers([("fpenv", v, SYS, []) for v in vs])
    s = c.scripts(paths, 8000 if c.thorough else 800)
    n = 1500 if c.thorough else 60
    runs = [(ex["fpenv", v], ["--script", s], "specification paths " + v) for v in vs]
    runs += [(ex["fpenv", v], ["--seed", c.seed * 10 + k, "--n", n, "--len", 30], "random " + v) for k, v in enumerate(vs)]
    c.validate("FpEnvTrace", c.run_all(runs), require=["enable", "disable", "guard", "unguard", "setFPE", "default", "guardDefault"])


def C21(c):
    """spec/Signals.tla"""
    paths = c.model("SignalsMC", "SignalsMC.cfg", workers=1, emit=True)
    vs = ("rel", "dbgnb")
    ex = c.build.drivers([("signals", v, SYS, []) for v in vs])
    s = c.scripts(paths, 4000 if c.thorough else 500)
    n = 1500 if c.thorough else 100
    runs = [(ex["signals", v], ["--script", s], "specification paths " + v) for v in vs]
    runs += [(ex["signals", v], ["--seed", c.seed * 10 + k, "--n", n, "--len", 30], "random " + v) for k, v in enumerate(vs)]
    c.validate("SignalsTrace", c.run_all(runs), require=["user", "install", "reset", "trace", "raise", "errh"])


def C13(c):
    """spec/Introsort.tla, spec/SortCalls.tla"""
    c.model("Introsort", "Introsort_thorough.cfg" if c.thorough else "Introsort.cfg", workers=8)
    ex = c.build.drivers([("sorts", v, SYS, []) for v in ("asan", "rel", "clangrel")])
    m = 20 if c.thorough else 1
    runs = [(ex["sorts", "rel"], ["--mode", "small", "--n", 3, "--len", 7 if c.thorough else 6], "all short inputs"),
            (ex["sorts", "asan"], ["--mode", "small", "--n", 4, "--len", 4], "all short inputs asan"),
            (ex["sorts", "asan"], ["--mode", "adversary", "--n", 6 * m, "--len", 400, "--seed", c.seed], "adversary asan"),
            (ex["sorts", "rel"], ["--mode", "adversary", "--n", 6 * m, "--len", 1500, "--seed", c.seed + 1], "adversary"),
            (ex["sorts", "clangrel"], ["--n", 150 * m, "--len", 600, "--seed", c.seed + 2], "random clang"),
            (ex["sorts", "asan"], ["--n", 150 * m, "--len", 300, "--seed", c.seed + 3], "random asan"),
            (ex["sorts", "rel"], ["--n", 150 * m, "--len", 600, "--seed", c.seed + 4], "random release")]
    c.validate("SortTrace", c.run_all(runs, timeout=60), require=["makeSorted", "dualSort", "isSorted", "isSortedUnique", "removeDuplicates", "makeSortedUnique"])


def C26(c):
    """spec/Numeric.tla"""
    c.model("NumericMC", "NumericMC.cfg", workers=4)
    ex = c.build.drivers([("numeric", v, SYS, []) for v in ("asan", "rel", "clangrel", "chai")])
    m = 8 if c.thorough else 1
    runs = []
    for k, v in enumerate(("asan", "rel", "clangrel")):
        runs += [(ex["numeric", v], ["--seed", c.seed * 100 + 10 * k + j, "--n", 12], v) for j in range(m)]
    runs += [(ex["numeric", "chai"], ["--seed", c.seed * 100 + j, "--mode", "half"], "half precision") for j in range(m)]
    c.validate("NumericTrace", c.run_all(runs), require=["max", "min", "abs", "square", "sqrt", "invSqrt", "convert", "convert2", "limit", "trig", "inverse", "expo"])


def C23(c):
    """spec/RawRange.tla"""
    paths = c.model("RawRangeMC", "RawRangeMC.cfg", workers=1, emit=True)
    ex = c.build.drivers([("rawrange", v, SYS, []) for v in ("asan", "rel", "clangrel")])
    s = c.scripts(paths, None if c.thorough else 2500)
    n = 1500 if c.thorough else 80
    runs = [(ex["rawrange", "asan"], ["--script", s, "--len", 7, "--mode", "str"], "specification paths, strings"),
            (ex["rawrange", "rel"], ["--script", s, "--len", 7, "--mode", "int"], "specification paths, integers")]
    for k, (v, m) in enumerate((("asan", "int"), ("asan", "str"), ("rel", "short"), ("rel", "str"), ("clangrel", "double"))):
        runs.append((ex["rawrange", v], ["--seed", c.seed * 10 + k, "--n", n, "--len", 25, "--mode", m], "random %s %s" % (v, m)))
    for k, (m, hidden) in enumerate(FAR):
        runs.append((ex["rawrange", "rel"], ["--seed", c.seed * 10 + k, "--n", n, "--len", 25, "--mode", m, "--from", hidden], "random, behind %d further elements" % hidden))
    c.validate("RawRangeTrace", c.run_all(runs), env={"FACET": "contents"},
               require=["assign", "resize", "shiftUp", "shiftDown", "ushiftUp", "ushiftDown", "insert", "erase", "append", "find", "setInsert", "setInsertMany", "setRemove", "setRemoveMany"])



def histories(c, driver, module, els, facet, paths, require, libs=LIB, n=30, length=60, limit=1500, deep=400, timeout=120, far=()):
    """Specification paths on the first two (variant, element type) pairs and random histories on all of them.
    far: (element type, number of hidden elements), the object of the specification is the end of one that much longer."""
    ex = c.build.drivers([(driver, v, libs, []) for v in sorted(set(v for v, _ in els) | set("rel" for _ in far))])
    runs = []
    if paths:
        s = c.scripts(paths, None if c.thorough else limit)
        runs += [(ex[driver, v], ["--script", s, "--mode", m], "specification paths %s %s" % (v, m)) for v, m in els[:2]]
    for k, (v, m) in enumerate(els):
        runs.append((ex[driver, v], ["--seed", c.seed * 10 + k, "--n", deep if c.thorough else n, "--len", length, "--mode", m], "random %s %s" % (v, m)))
    for k, (m, hidden, *room) in enumerate(far):
        # with little room growth moves all of the hidden elements: one history
        runs.append((ex[driver, "rel"], ["--seed", c.seed * 10 + k, "--n", 1 if room else deep if c.thorough else n, "--len", length, "--mode", m, "--from", hidden] + (["--room", room[0]] if room else []),
                     "random, behind %d further elements" % hidden))
    c.validate(module, c.run_all(runs, timeout=timeout), env={"FACET": facet}, require=require)


# Long objects: positions and sizes around 2^31 and 2^32
FAR = [("tiny", 2147483640), ("tiny", 4294967290)]
TIGHT = [("tiny", 2147483640, 3), ("tiny", 2147483645, 3)]
ALL = [("asan", "str"), ("rel", "int"), ("asan", "int"), ("rel", "double"), ("asan-nb", "str"), ("rel", "str")]
TOKS = [("asan", "tok"), ("rel", "tok"), ("asan", "ctok"), ("asan", "str")]
SEQ1D = ["push", "emplace", "insert", "pop", "erase", "resize", "resizeDefault", "reserve", "clear", "copyAssign", "moveAssign", "copyConstruct", "moveConstruct", "swap", "viewWrite"]
SET = ["insert", "remove", "insertMany", "removeMany", "insertAll", "removeAll", "clear", "reserve", "copyAssign", "moveAssign", "copyConstruct", "swap"]


def C03(c):
    """spec/Seq1D.tla"""
    paths = c.model("Seq1DMC", "Seq1DMC_thorough.cfg" if c.thorough else "Seq1DMC.cfg", workers=1, emit=True)
    histories(c, "seq1d", "Seq1DTrace", ALL, "contents", paths, SEQ1D, far=FAR + TIGHT)


def C06(c):
    """spec/SortedSet.tla"""
    paths = c.model("SortedSetMC", "SortedSetMC.cfg", workers=1, emit=True)
    histories(c, "sortedset", "SortedSetTrace", ALL, "contents", paths, SET + ["contains"])


def C05(c):
    """life-cycle facet of RawRange, Seq1D, SortedSet"""
    n = 25
    histories(c, "rawrange", "RawRangeTrace", TOKS, "life", None, ["gone"], n=50, length=25)
    histories(c, "seq1d", "Seq1DTrace", TOKS, "life", None, SEQ1D, n=n)
    histories(c, "sortedset", "SortedSetTrace", TOKS, "life", None, SET, n=n)
    histories(c, "arrayofarrays", "RowsOfSeqsTrace", TOKS, "life", None, AOA, n=n)
    histories(c, "arrayofsets", "RowsOfSetsTrace", TOKS, "life", None, AOS, n=n)
    histories(c, "sparse", "SparseTrace", TOKS, "life", None, SPARSE, n=n)
    ndHistories(c, [("asan", "tok"), ("asan", "str")], "life", None, ND, dims=(2, 3), n=n)


def C20(c):
    """capacity facet of Seq1D, SortedSet"""
    els = [("asan", "str"), ("rel", "int")]
    histories(c, "seq1d", "Seq1DTrace", els, "capacity", None, SEQ1D, far=FAR[:1] + TIGHT)
    histories(c, "sortedset", "SortedSetTrace", els, "capacity", None, SET)
    histories(c, "arrayofarrays", "RowsOfSeqsTrace", els, "capacity", None, AOA, far=FAR[:1])
    histories(c, "arrayofsets", "RowsOfSetsTrace", els, "capacity", None, AOS, far=FAR[:1])
    histories(c, "sparse", "SparseTrace", els, "capacity", None, SPARSE, far=FAR[:1])
    ndHistories(c, [("asan", "str"), ("rel", "int")], "capacity", None, ND + ["reserve"], dims=(2, 3), n=20)


ROWS = ["copyAssign", "moveAssign", "copyConstruct", "moveConstruct", "swap", "resize", "compress", "renew"]
AOA = ROWS + ["appendArray", "appendArrayVals", "insertArray", "eraseArray", "emplaceBack", "appendTo", "emplace", "insertInto", "eraseFrom",
              "resizeArray", "clearArray", "write", "setCapacity", "reserve", "reserveValues", "resizeFromCapacities"]


def C07(c):
    """spec/Rows.tla, spec/RowsOfSeqs.tla"""
    paths = c.model("RowsOfSeqsMC", "RowsOfSeqsMC_thorough.cfg" if c.thorough else "RowsOfSeqsMC.cfg", workers=1, emit=True)
    histories(c, "arrayofarrays", "RowsOfSeqsTrace", ALL, "contents", paths, AOA + ["assimilateSets"], far=FAR)


AOS = ROWS + ["appendSet", "insertSet", "eraseSet", "insert", "insertMany", "remove", "removeMany", "clearSet", "setCapacity", "reserveRow", "reserve", "reserveValues",
              "resizeFromCapacities", "assimilate"]


def C08(c):
    """spec/Rows.tla, spec/RowsOfSets.tla"""
    paths = c.model("RowsOfSetsMC", "RowsOfSetsMC_thorough.cfg" if c.thorough else "RowsOfSetsMC.cfg", workers=1, emit=True)
    histories(c, "arrayofsets", "RowsOfSetsTrace", ALL, "contents", paths, AOS + ["contains"], far=FAR)


SPARSE = ROWS + ["insertNZ", "insertNZs", "removeNZ", "removeNZs", "write", "setValues", "setCapacity", "reserveRow", "reserveTotal", "reserveRows", "appendRow",
                 "resizeFromCapacities", "assimilate", "query", "view"]


def C09(c):
    """spec/Rows.tla, spec/Sparse.tla"""
    paths = c.model("SparseMC", "SparseMC_thorough.cfg" if c.thorough else "SparseMC.cfg", workers=1, emit=True)
    histories(c, "sparse", "SparseTrace", ALL, "contents", paths, SPARSE + ["addToRow", "zero"], far=FAR[:1])


def C10(c):
    """spec/Sparse.tla (AddToRow)"""
    paths = [p for p in c.model("SparseMC", "SparseMC.cfg", workers=1, emit=True) if any(s["op"] == "addToRow" for s in p)]
    els = [("asan", "int-adds"), ("rel", "double-adds"), ("asan", "float-adds"), ("rel", "long-adds"), ("dbg", "int-adds"), ("clangrel", "float-adds")]
    histories(c, "sparse", "SparseTrace", els, "contents", paths, ["addToRow", "write", "setValues", "zero"], far=[("tiny-adds", 2147483640)])


def perDims(driver, dims, variants, shards):
    """One executable per number of dimensions; the 24 layouts of four dimensions are split over three."""
    out = []
    for d in dims:
        for k in (shards if d == 4 else [0]):
            for v in variants(d):
                out.append(("%s@%d%s" % (driver, d, "abc"[k]), v, LIB, ["-DVP_NDIM=%d" % d, "-DVP_SHARD=%d" % k]))
    return out


def vast(c, variant, mode):
    """Arrays with more than 2^31 elements."""
    jobs = [("vast@%d" % d, variant, LIB, ["-DVP_NDIM=%d" % d, "-DVP_SHARD=%d" % (c.seed % 3)]) for d in (2, 3, 4)]
    ex = c.build.drivers(jobs)
    n = 600 if c.thorough else 48
    runs = [(ex[j[0], variant], ["--seed", c.seed * 10 + k, "--n", n, "--mode", mode], "vast %s %s" % (j[0], variant)) for k, j in enumerate(jobs)]
    c.validate("VastTrace", c.run_all(runs), require=["array", "at", "slice"] + (["guarded"] if mode == "checked" else []), chunk=2000)


def C01(c):
    """spec/Layout.tla, spec/Vast.tla"""
    c.model("VastMC", "VastMC.cfg", workers=4)
    vast(c, "rel", "plain")
    c.model("LayoutMC", "LayoutMC.cfg", workers=4)
    shards = [0, 1, 2] if c.thorough else [c.seed % 3]
    jobs = perDims("ndprobe", [1, 2, 3, 4, 5], lambda d: ("asan", "rel") if d < 4 or c.thorough else ("rel",), shards)
    ex = c.build.drivers(jobs)
    runs = []
    for k, (name, v, _, extra) in enumerate(jobs):
        d = int(extra[0][-1])
        runs.append((ex[name, v], ["--mode", "all", "--len", {1: 6, 2: 4, 3: 2 if not c.thorough else 3, 4: 1 if not c.thorough else 2, 5: 1}[d]], "all extents, %d dimensions, %s" % (d, v)))
        for j in range(4 if c.thorough else 1):
            runs.append((ex[name, v], ["--seed", c.seed * 100 + 10 * k + j, "--n", {1: 20, 2: 40, 3: 48, 4: 32, 5: 12}[d] * (4 if c.thorough else 1)], "random %d dimensions %s" % (d, v)))
    c.validate("NDAddrTrace", c.run_all(runs), require=["array", "slice", "nested"], chunk=1500)


def ndHistories(c, els, facet, paths, require, dims=(1, 2, 3, 4), n=24, deep=240, limit=500):
    shards = [0, 1, 2] if c.thorough else [c.seed % 3]
    vs = sorted(set(v for v, _ in els))
    jobs = perDims("ndarray", dims, lambda d: vs if d < 4 else ["rel"], shards)
    ex = c.build.drivers(jobs)
    runs = []
    for k, (name, v, _, extra) in enumerate(jobs):
        d = int(extra[0][-1])
        mine = [p for p in paths or [] if len(p[0]["perm"]) == d]
        if mine:
            s = c.scripts(mine, 12000 if c.thorough else limit, name="script-%s-%s" % (name, v))
            runs.append((ex[name, v], ["--script", s, "--mode", [m for w, m in els if w == v][0]], "specification paths, %d dimensions, %s" % (d, v)))
        for j, m in enumerate(m for w, m in els if w == v or d == 4):
            if d == 4 and m == "str":
                continue
            runs.append((ex[name, v], ["--seed", c.seed * 100 + 10 * k + j, "--n", deep if c.thorough else n, "--len", 50, "--mode", m], "random %d dimensions %s %s" % (d, v, m)))
    c.validate("NDArrayTrace", c.run_all(runs), env={"FACET": facet}, require=require, chunk=4000)


ND = ["resize", "resizeDefault", "resizeAll", "clear", "select", "badSelect", "badResize", "number", "copyAssign", "moveAssign", "moveConstruct", "copyConstruct", "swap", "write", "viewWrite"]


def C02(c):
    """spec/NDArray.tla"""
    paths = c.model("NDArrayMC", "NDArrayMC_thorough.cfg" if c.thorough else "NDArrayMC.cfg", workers=4, emit=True)
    ndHistories(c, [("asan", "str"), ("rel", "int"), ("asan", "int")], "contents", paths, ND + ["resizeRaw", "copyValues", "copyOther"])


def C04(c):
    """spec/Ownership.tla"""
    paths = c.model("OwnershipMC", "OwnershipMC_thorough.cfg" if c.thorough else "OwnershipMC.cfg", workers=4, emit=True)
    s = c.scripts(paths, 40000 if c.thorough else 2400)
    vs = ("asan", "chai", "rel") if c.thorough else ("asan", "chai")
    parts = range(4)
    ex = c.build.drivers([("owner@%d" % k, v, LIB, ["-DVP_PART=%d" % k]) for k in parts for v in vs])
    runs = []
    for v in vs:
        for k in parts:
            e = ex["owner@%d" % k, v]
            runs.append((e, ["--script", s, "--from", -1 if c.thorough and v == "asan" else (c.seed + k) % 8, "--mode", "all"], "specification paths, part %d %s" % (k, v)))
            runs.append((e, ["--seed", c.seed * 9 + k, "--n", 300 if c.thorough else 25, "--len", 60, "--mode", "all"], "random part %d %s" % (k, v)))
    c.validate("OwnershipTrace", c.run_all(runs), require=["begin", "mutate", "write", "renew", "copy", "move", "swap", "view", "viewCopy", "viewWrite", "gone"])


def C25(c):
    """spec/Buffers.tla"""
    kinds = ("shared", "records", "fixed")
    t = "_thorough" if c.thorough else ""
    s = {}
    for k in kinds:
        paths = c.model("BuffersMC", "BuffersMC_%s%s.cfg" % (k, t), workers=4, emit=True)
        s[k] = c.scripts(paths, 20000 if c.thorough else 1500, name=k)
    vs = ("asan", "rel", "chai", "chaihost")
    ex = c.build.drivers([("buffers", v, LIB, []) for v in vs])
    fixed = "stack3" if c.thorough else "stack2"
    runs = [(ex["buffers", v], ["--script", s[k], "--mode", m], "specification paths %s %s" % (m, v))
            for v, m, k in (("asan", "malloc-tok", "shared"), ("rel", "malloc-int", "shared"), ("chai", "chai-tok", "records"), ("chaihost", "chai-int", "records"), ("asan", fixed, "fixed"))]
    n = 400 if c.thorough else 40
    for k, (v, m) in enumerate((("asan", "malloc-ctok"), ("asan", "malloc-str"), ("asan", "malloc-int"), ("rel", "malloc-long"), ("asan", "stack7"), ("rel", "stack7"),
                                ("chai", "chai-str"), ("chai", "chai-int"), ("chaihost", "chai-tok"), ("asan", "malloc-tok"))):
        runs.append((ex["buffers", v], ["--seed", c.seed * 20 + k, "--n", n, "--len", 60, "--mode", m], "random %s %s" % (v, m)))
    c.validate("BuffersTrace", c.run_all(runs), require=["fresh", "copy", "move", "free", "setCapacity", "reserve", "resize", "push", "emplace", "insert", "pop", "erase", "write", "copyInto", "look", "recast", "space"])


def C33(c):
    """spec/Announce.tla"""
    paths = c.model("AnnounceMC", "AnnounceMC.cfg", workers=4, emit=True)
    if c.thorough:
        c.model("AnnounceMC", "AnnounceMC_thorough.cfg", workers=8)
    ex = c.build.drivers([("moves@" + t, "chai", LIB, ["-DVP_T=" + t]) for t in ("long", "float")])
    s = c.scripts(paths, 20000 if c.thorough else 2000)
    runs = [(ex["moves@long", "chai"], ["--script", s, "--seed", c.seed], "specification paths")]
    for k in range(12 if c.thorough else 3):
        t = ("long", "float")[k % 2]
        runs.append((ex["moves@" + t, "chai"], ["--seed", c.seed * 100 + k, "--n", 270 if c.thorough else 108, "--len", 40], "random %d, values %s" % (k, t)))
    c.validate("AnnounceTrace", c.run_all(runs), require=["make", "name", "grow", "move", "view", "copy", "into", "swap", "absorb", "free", "callbacks", "elements", "nameElement", "drop"], chunk=2500)


def C32(c):
    """spec/GdbView.tla"""
    c.model("GdbViewMC", "GdbViewMC_thorough.cfg" if c.thorough else "GdbViewMC.cfg", workers=4)
    kinds = ("dbg", "clangdbg", "chaidbg")
    ex = c.build.drivers([("gdbview", v, LIB if v == "chaidbg" else SYS, ["-g2"]) for v in kinds])
    n = 60 if c.thorough else 8
    base = ["--py", os.path.join(vlib.HARNESS, "gdbview.py"), "--repo", vlib.REPO]
    runs = [(ex["gdbview", v], base + ["--seed", c.seed * 100 + 10 * j + k, "--n", n], "%s %d" % (v, k)) for j, v in enumerate(kinds) for k in range(2)]
    c.validate("GdbViewTrace", c.run_all(runs, timeout=300), require=["look"], chunk=2000)


def C34(c):
    """spec/StackTrace.tla"""
    paths = c.model("StackTraceMC", "StackTraceMC.cfg", workers=4, emit=True)
    if c.thorough:
        c.model("StackTraceMC", "StackTraceMC_thorough.cfg", workers=8)
    vs = {"dbg": [], "rel": ["-fno-reorder-blocks-and-partition"], "clang": [], "clangrel": [], "addr2line": ["-O0", "-g"]}
    ex = c.build.drivers([("stacktrace", v, SYS, x) for v, x in vs.items()])
    n = 4000 if c.thorough else 300
    runs = []
    for k, v in enumerate(vs):
        few = v == "addr2line"               # a process for every frame
        s = c.scripts(paths, 60 if few else 12000 if c.thorough else 1500, name="script-few" if few else "script")
        runs.append((ex["stacktrace", v], ["--script", s, "--seed", c.seed], "specification paths " + v))
        for j in range(3 if few else 1):
            runs.append((ex["stacktrace", v], ["--seed", c.seed * 100 + 10 * j + k, "--n", (40 if c.thorough else 4) if few else n, "--len", 60], "random %s %d" % (v, j)))
    c.validate("StackTraceTrace", c.run_all(runs, timeout=300), require=["begin", "call", "return", "unwind", "trace"])
