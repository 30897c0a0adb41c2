"""Histories of Python calls on LvArray's wrappers; run inside harness/pymirror.cpp, which provides the module vp.
argv: OUT --py THIS --site DIR --repo DIR [--script FILE] [--n N --len L --seed S --kinds a,b] [--leak 1]"""
import gc
import json
import os
import random
import sys
import types

import numpy as np
import scipy.sparse  # noqa: F401
import vp
import pylvarray

DT = {"bool": np.bool_, "i8": np.int8, "u8": np.uint8, "i16": np.int16, "u16": np.uint16, "i32": np.int32, "u32": np.uint32,
      "i64": np.int64, "u64": np.uint64, "q": np.longlong, "uq": np.ulonglong, "f32": np.float32, "f64": np.float64, "ld": np.longdouble, "c128": np.complex128}
KINDS = {"a1d": ("arr", 1, "f64"), "a1i": ("arr", 1, "i32"), "a1s": ("arr", 1, "i16"), "a2l": ("arr", 2, "i64"), "a2d": ("arr", 2, "f64"), "a3f": ("arr", 3, "f32"),
         "str": ("text", 1, "obj"), "sd": ("sorted", 1, "f64"), "si": ("sorted", 1, "i32"), "ai": ("rows", 1, "i32"), "ad": ("rows", 1, "f64"),
         "ti": ("sets", 1, "i32"), "tl": ("sets", 1, "i64"), "md": ("crs", 1, "f64"), "mi": ("crs", 1, "i32")}
TYPES = {"arr": "Array", "text": "Array", "sorted": "SortedArray", "rows": "ArrayOfArrays", "sets": "ArrayOfSets", "crs": "CRSMatrix"}
COLT = {"md": "i32", "mi": "i16"}
METHODS = {
    "Array": ["get_single_parameter_resize_index", "set_single_parameter_resize_index", "resize", "resize_all", "to_numpy", "get_access_level", "set_access_level", "repr"],
    "SortedArray": ["insert", "remove", "to_numpy", "get_access_level", "set_access_level", "repr"],
    "ArrayOfArrays": ["insert", "insert_into", "erase_from", "get_access_level", "set_access_level", "repr", "len", "get", "del", "iter"],
    "ArrayOfSets": ["insert", "insert_into", "erase_from", "get_access_level", "set_access_level", "repr", "len", "get", "del", "iter"],
    "CRSMatrix": ["num_rows", "num_columns", "get_columns", "get_entries", "to_scipy", "resize", "compress", "insert_nonzeros", "remove_nonzeros", "add_to_row",
                  "get_access_level", "set_access_level", "repr"]}
BAREARGS = {"set_single_parameter_resize_index": (0,), "resize": (1, 1), "resize_all": ([1],), "set_access_level": (2,), "insert": (0, [1]), "insert_into": (0, 0, [1]), "erase_from": (0, 0),
            "remove": ([1],), "get_columns": (0,), "get_entries": (0,), "insert_nonzeros": (0, [0], [1]), "remove_nonzeros": (0, [0]), "add_to_row": (0, [0], [1])}


def code(a):
    """the short name of an array's element type"""
    for k, t in DT.items():
        if a.dtype.num == np.dtype(t).num and a.dtype.isnative:
            return k
    return str(a.dtype)


def ints(a):
    return [int(x) for x in np.asarray(a).ravel()]


class Episode:
    def __init__(self, kind, quiet=False):
        self.kind = kind
        self.fam, self.ndim, self.dt = KINDS[kind] if kind else ("none", 0, "")
        self.h = vp.new(kind) if kind else None
        self.w = {}
        self.views = {}
        self.refs = {}
        self.pool = None

    def close(self):
        self.views.clear()
        self.w.clear()
        for k in list(self.refs):
            vp.ref("end", k, None)
        self.refs.clear()
        if self.h:
            vp.free(self.h)

    # ---- what there is to see
    def state(self):
        s = vp.state(self.h)
        return [list(x) for x in s] if self.fam == "text" else s

    def shown(self, w):
        """(what the wrapper shows, the element type it shows)"""
        if self.fam == "arr":
            a = w.to_numpy()
            return {"dims": list(a.shape), "vals": ints(a), "ri": w.get_single_parameter_resize_index()}, code(a)
        if self.fam == "text":
            try:
                return {"err": "", "x": [list(s.encode()) for s in w.to_numpy()]}, "obj"
            except UnicodeDecodeError:
                return {"err": "UnicodeDecodeError", "x": []}, "obj"
        if self.fam == "sorted":
            a = w.to_numpy()
            return ints(a), code(a)
        if self.fam in ("rows", "sets"):
            rows = [w[i] for i in range(len(w))]
            again = [ints(r) for r in w]
            d = [code(r) for r in rows] or [self.dt]
            x = [ints(r) for r in rows]
            return x, (d[0] if d == [d[0]] * len(d) and again == x else "mixed")
        rows = range(w.num_rows())
        c = [w.get_columns(r) for r in rows]
        e = [w.get_entries(r) for r in rows]
        d = [code(x) for x in e] or [self.dt]
        if d != [d[0]] * len(d) or any(code(x) != COLT[self.kind] for x in c):
            d = ["mixed"]
        return {"nc": w.num_columns(), "cols": [ints(x) for x in c], "ents": [ints(x) for x in e]}, d[0]

    def view(self, s):
        v = self.views[s]
        if scipy.sparse.issparse(v):
            return [s, list(v.shape), ints(v.toarray()), int(v.data.flags.writeable)]
        return [s, list(v.shape), ints(v), int(v.flags.writeable)]

    def observe(self, e):
        if self.h:
            e["is"] = self.state()
            ws = []
            for k in sorted(self.w):
                w = self.w[k]
                sh, d = self.shown(w)
                ws.append([k, w.get_access_level(), sh, d, np.dtype(w.dtype).name if self.fam != "text" else w.dtype.__name__])
            e["ws"] = ws
            e["vw"] = [self.view(s) for s in sorted(self.views)]
        if self.pool is not None:
            e["rc"] = [sys.getrefcount(o) - b for o, b in zip(self.pool, self.base)]
            at = []
            for k in range(1, 4):
                if k not in self.refs:
                    at.append(-1)
                else:
                    r = vp.ref("get", k, None)
                    at.append(0 if r is None else self.pool.index(r) + 1 if any(r is p for p in self.pool) else -2)
                    del r
            e["at"] = at
        return e

    # ---- arguments
    def argument(self, a):
        t, v = a["t"], list(a.get("v", []))
        e = DT.get(a.get("e", "i64"), np.int64)
        if t == "list":
            return v
        if t == "tuple":
            return tuple(v)
        if t == "scalar":
            return v[0]
        if t == "flist":
            return [float(x) for x in v]
        if t == "fscalar":
            return float(v[0])
        if t == "np":
            return np.array(v, dtype=e)
        if t == "np0":
            return np.array(v[0], dtype=e)
        if t == "npscalar":
            return e(v[0])
        if t == "2d":
            return np.array([v], dtype=e)
        if t == "strided":
            return np.array([y for x in v for y in (x, 77)], dtype=e)[::2]
        if t == "rev":
            return np.array(v[::-1], dtype=e)[::-1]
        if t == "part":
            return np.array([88] + v + [99], dtype=e)[1:1 + len(v)]
        if t == "ro":
            r = np.array(v, dtype=e)
            r.flags.writeable = False
            return r
        if t == "swapped":
            return np.array(v, dtype=np.dtype(e).newbyteorder())
        if t == "unaligned":
            d = np.dtype(e)
            r = np.zeros(len(v) * d.itemsize + 1, dtype=np.uint8)[1:].view(d)
            r[:] = v
            return r
        if t == "str":
            return "abc"
        if t == "none":
            return None
        if t == "big":
            return [1 << 70]
        if t == "object":
            return np.array(v + [None], dtype=object)
        if t == "strs":
            return ["1", "2"]
        if t == "own":
            w = self.w[a["w"]]
            return w.get_entries(a["i"]) if self.fam == "crs" else w[a["i"]]
        raise KeyError(t)

    # ---- one operation
    def do(self, o):
        """Returns the event."""
        e = {"op": o["op"], **o}
        e["err"], e["ret"] = "", 0
        op = o["op"]
        ends = False
        try:
            ends = getattr(self, "op_" + op)(o, e)
        except BaseException as x:
            e["err"] = type(x).__name__
            if isinstance(x, (KeyError, NameError, AttributeError, UnboundLocalError)) and op not in ("bare", "item", "cupy"):
                raise
        if ends:
            self.views.clear()
        try:
            return self.observe(e)
        except BaseException as x:
            broken(e, x)

    def op_wrap(self, o, e):
        self.w.pop(o["w"], None)
        self.w[o["w"]] = vp.wrap(self.h)

    def op_drop(self, o, e):
        del self.w[o["w"]]

    def op_level(self, o, e):
        w = self.w[o["w"]]
        how = o["how"]
        if how == "one":
            w.set_access_level(o["v"])
        elif how == "cpu":
            w.set_access_level(o["v"], pylvarray.CPU)
        elif how == "elsewhere":
            w.set_access_level(o["v"], 7)
        elif how == "text":
            w.set_access_level("a")
        elif how == "huge":
            w.set_access_level(1 << 40)
        elif how == "none":
            w.set_access_level()

    def op_native(self, o, e):
        vp.native(self.h, o["do"], *o["i"])
        return o["do"] != "set"

    def op_text(self, o, e):
        vp.text(self.h, bytes(o["s"]))
        return True

    def op_py(self, o, e):
        w = self.w[o["w"]]
        a = list(o["i"]) + [self.argument(x) for x in o["args"]]
        b = o["bad"]
        if b == 1:
            a[0] = "a"
        elif b == 2:
            a[0] = 1.5 if o["i"] else {}
        elif b == 3:
            a.append(1)
            a.append(1)
        elif b == 4:
            a = a[:-1]
        elif b == 5:
            a[0] = 1 << 80
        r = getattr(w, o["m"])(*a)
        e["ret"] = 0 if r is None else r if type(r) is int else -1
        return o["m"] not in ("add_to_row", "set_single_parameter_resize_index")

    def op_item(self, o, e):
        w, how, i = self.w[o["w"]], o["how"], o.get("i", 0)
        if how == "len":
            e["ret"] = len(w)
        elif how == "del":
            del w[i]
            return True
        elif how == "set":
            w[i] = [1]
        elif how in ("add", "mul"):
            # "not implemented", as an exception or as the value
            if (w + w if how == "add" else w * 2) is NotImplemented:
                raise TypeError
        elif how == "slice":
            w[0:1]
        elif how == "text":
            w["a"]
        elif how == "attr":
            w.dtype = None

    def op_look(self, o, e):
        w, part, i = self.w[o["w"]], o["part"], o["i"]
        if part == "whole":
            v = w.to_numpy()
        elif part == "row":
            v = w[i]
        elif part == "cols":
            v = w.get_columns(i)
        elif part == "ents":
            v = w.get_entries(i)
        else:
            v = w.to_scipy()
            # the columns may be shown in place, but are not to be written to
            e["ix"] = int(any(v.indices.flags.writeable and np.shares_memory(v.indices, w.get_columns(r)) for r in range(w.num_rows())))
        self.views[o["s"]] = v

    def op_poke(self, o, e):
        v = self.views[o["s"]]
        if scipy.sparse.issparse(v):
            v = v.data
        v[np.unravel_index(o["k"], v.shape)] = o["v"]

    def op_forget(self, o, e):
        del self.views[o["s"]]

    def op_repr(self, o, e):
        r = repr(self.w[o["w"]])
        e["head"] = r.split("<")[0].strip()
        e["elem"] = r.split("<")[1].split(",")[0].strip()
        e["same"] = int(r == vp.type(self.h))

    def op_call(self, o, e):
        how = o["how"]
        seen = e["got"] = []

        def f(*args):
            assert len(args) == 1
            seen.append([args[0].get_access_level(), self.shown(args[0])[0]])
            if how == "keep":
                self.w[o["w"]] = args[0]
            if how == "level":
                args[0].set_access_level(2)
                self.w[o["w"]] = args[0]
            if how == "raise":
                raise ArithmeticError("x")
            return 5
        if how == "notfun":
            vp.call(self.h, 3)
        elif how == "wrongargs":
            vp.call(self.h, lambda: 1)
        else:
            vp.call(self.h, f)

    def op_bare(self, o, e):
        b = getattr(pylvarray, TYPES[self.fam])()
        m = o["m"]
        if m == "repr":
            repr(b)
        elif m == "len":
            len(b)
        elif m == "get":
            b[0]
        elif m == "del":
            del b[0]
        elif m == "iter":
            list(b)
        elif m == "dtype":
            b.dtype
        else:
            getattr(b, m)(*BAREARGS.get(m, ()))

    def op_scalar(self, o, e):
        what, how = o["what"], o["how"]
        seen = []

        def f(*args):
            for a in args:
                if isinstance(a, np.ndarray):
                    seen.append([code(a), ints(a), int(a.flags.writeable)])
                elif isinstance(a, str):
                    seen.append(["str", list(a.encode()), 0])
                else:
                    seen.append(["list", [x for s in a for x in list(s.encode()) + [10]], 0])
            if how == "write":
                args[0][0] = o["v"] + 5
            if how == "raise":
                raise ArithmeticError("x")
        try:
            e["ret"] = vp.scalar(f, what, o["v"])
        finally:
            e["got"] = seen

    def op_parse(self, o, e):
        e["got"] = []
        e["got"] = vp.parse(self.argument(o["arg"]), o["to"])

    def op_show(self, o, e):
        e["dt"], e["got"] = "", []
        a = vp.show(o["of"], o["v"])
        e["dt"], e["got"] = code(a), ints(a)

    def op_unmade(self, o, e):
        vp.unmade(o["of"])

    def op_cupy(self, o, e):
        # cupy stands in: its arrays remember what they were made of
        e["got"] = []
        names = ("cupy", "cupy.cuda", "cupy_helper")
        for n in names:
            sys.modules.pop(n, None)
        cupy, cuda = types.ModuleType("cupy"), types.ModuleType("cupy.cuda")
        made = []

        class UnownedMemory:
            def __init__(self, ptr, size, owner):
                self.is_ = [ptr, size, int(owner is None)]

        class MemoryPointer:
            def __init__(self, mem, offset):
                self.is_ = mem.is_ + [offset]

        def ndarray(shape, dtype=float, memptr=None, strides=None):
            if o["how"] == "raise":
                raise ArithmeticError("x")
            made.append([memptr.is_, [k for k, t in DT.items() if t is dtype], list(shape), list(strides), int(type(shape) is tuple and type(strides) is tuple)])
            return made
        cuda.UnownedMemory, cuda.MemoryPointer, cupy.cuda, cupy.ndarray = UnownedMemory, MemoryPointer, cuda, ndarray
        sys.modules["cupy"], sys.modules["cupy.cuda"] = cupy, cuda
        if o["how"] == "missing":
            sys.modules["cupy_helper"] = None
        elif o["how"] == "other":
            sys.modules["cupy_helper"] = types.ModuleType("cupy_helper")
        try:
            r = vp.cupy(o["of"], o["ptr"], o["dims"], o["strides"])
            e["got"] = made[0] + [int(r is made)]
        finally:
            for n in names:
                sys.modules.pop(n, None)

    def op_typename(self, o, e):
        n = np.dtype(DT[o["of"]]).num if o["of"] in DT else 17 if o["of"] == "obj" else 18
        e["name"] = vp.typeName(n)
        e["index"] = vp.typeIndex(n)

    def op_convert(self, o, e):
        x = self.w[o["w"]] if o["w"] else [1]
        r = vp.convert(x, o["to"])
        e["ret"] = int(r is x)

    def op_module(self, o, e):
        m = types.ModuleType("m")
        if o["how"] == "missing":
            keep = sys.modules["pylvarray"]
            sys.modules["pylvarray"] = None
            try:
                e["ret"] = int(vp.module(m))
            finally:
                sys.modules["pylvarray"] = keep
        else:
            e["ret"] = int(vp.module(m))
            e["same"] = int(m.pylvarray is pylvarray)

    def op_constants(self, o, e):
        e["got"] = [pylvarray.READ_ONLY, pylvarray.MODIFIABLE, pylvarray.RESIZEABLE]
        e["types"] = sorted(k for k in dir(pylvarray) if k[0] != "_" and isinstance(getattr(pylvarray, k), type))

    def op_ref(self, o, e):
        if self.pool is None:
            self.pool = [["one"], ["two"]]
            self.base = [0, 0]
            self.base = [sys.getrefcount(x) - 0 for x in self.pool]
            # the loops of observe() hold one more reference
            self.base = [sys.getrefcount(x) for x, b in zip(self.pool, self.base)]
        d, i, k = o["do"], o["i"], o["o"]
        if d in ("take", "give", "fill"):
            vp.ref(d, i, self.pool[k - 1] if k else None)
        else:
            vp.ref(d, i, k)
        if d in ("make", "take", "copyMake", "moveMake"):
            self.refs[i] = 1
        if d == "end":
            del self.refs[i]


# ------------------------------------------------------------------------------------------------- random histories
class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.later = None

    def value(self):
        return self.r.randrange(-3, 10)

    def arg(self, ep, dt, vals=None, lo=-3, hi=9, n=None):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 5]) if n is None else n
        v = [r.randrange(lo, hi + 1) for _ in range(n)] if vals is None else vals
        t = r.choice(["np"] * 12 + ["list", "tuple", "scalar", "flist", "fscalar", "np0", "npscalar", "2d", "strided", "rev", "part", "part", "ro", "swapped", "unaligned",
                                    "str", "none", "big", "object", "strs"])
        if t in ("scalar", "fscalar", "np0", "npscalar"):
            if vals is not None and len(v) != 1:
                t = "np"
            else:
                v = (v or [1])[:1]
        e = dt if r.random() < 0.7 else r.choice(list(DT))
        if vals is not None and e == "bool":
            e = dt
        if e in ("bool", "u8", "u16", "u32", "u64", "uq"):
            v = [abs(x) % 2 if e == "bool" else abs(x) for x in v]
        return {"t": t, "e": e, "v": v}

    def index(self, n, more=0):
        r = self.r
        if r.random() < 0.15:
            return r.choice([-1, n + more, n + more + 3, -7])
        return r.randrange(0, max(1, n + more))

    def calls(self, ep):
        """random (method, ints, args) for the family"""
        r, s = self.r, ep.state()
        f = ep.fam
        if f in ("arr", "text"):
            m = r.choice(["resize", "resize", "resize_all", "set_single_parameter_resize_index"])
            if m == "resize":
                return m, [r.choice([-1, 0, 1, 2, 3, 4, 5])], []
            if m == "resize_all":
                n = ep.ndim if r.random() < 0.8 else r.choice([0, 1, 2, 4])
                return m, [], [self.arg(ep, r.choice(["i64", "q", "i32"]), lo=-1 if r.random() < 0.1 else 0, hi=4, n=n)]
            return m, [r.choice([-1] + list(range(ep.ndim + 1)))], []
        if f == "sorted":
            m = r.choice(["insert", "insert", "remove"])
            return m, [], [self.arg(ep, ep.dt)]
        if f == "rows":
            m = r.choice(["insert", "insert_into", "insert_into", "erase_from"])
            i = self.index(len(s), 1 if m == "insert" else 0)
            j = self.index(len(s[i]) if 0 <= i < len(s) else 0, 1 if m == "insert_into" else 0)
            a = self.arg(ep, ep.dt)
            if s and r.random() < 0.2:
                a = {"t": "own", "w": r.choice(sorted(ep.w)), "i": r.randrange(len(s))}
            return (m, [i], [a]) if m == "insert" else (m, [i, j], [a]) if m == "insert_into" else (m, [i, j], [])
        if f == "sets":
            m = r.choice(["insert", "insert_into", "insert_into", "erase_from"])
            i = self.index(len(s), 1 if m == "insert" else 0)
            if m == "insert":
                return m, [i] + ([r.choice([0, 1, 4, -1])] if r.random() < 0.5 else []), []
            return m, [i], [self.arg(ep, ep.dt)]
        nr = len(s["cols"])
        m = r.choice(["resize", "compress", "insert_nonzeros", "insert_nonzeros", "remove_nonzeros", "add_to_row", "add_to_row"])
        if m == "compress":
            return m, [], []
        if m == "resize":
            top = max([x for c in s["cols"] for x in c] + [-1]) + 1
            return m, [r.choice([-1, 0, 1, 2, 3, 4]), r.choice([max(top, 1), top + 3, 6, 6])] + ([r.choice([0, 2, 3, -1])] if r.random() < 0.5 else []), []
        i = self.index(nr)
        n = r.choice([0, 1, 2, 3])
        have = s["cols"][i] if 0 <= i < nr else []
        if m == "add_to_row":
            n = n if have else 0
            cv = [r.choice(have) for _ in range(n)]
        else:
            if not s["nc"]:
                n = 0
            cv = [r.randrange(s["nc"]) for _ in range(n)]
        c = self.arg(ep, COLT[ep.kind], vals=cv)
        if m == "remove_nonzeros":
            return m, [i], [c]
        e = self.arg(ep, ep.dt, n=n if r.random() < 0.9 else n + 1)
        if m == "insert_nonzeros" and 0 <= i < nr and r.random() < 0.2:
            j = r.randrange(nr)
            if len(s["cols"][j]) <= s["nc"]:
                c = {"t": "np", "e": COLT[ep.kind], "v": r.sample(range(s["nc"]), len(s["cols"][j]))}
                e = {"t": "own", "w": r.choice(sorted(ep.w)), "i": j}
        return m, [i], [c, e]

    def native(self, ep):
        r, s, f = self.r, ep.state(), ep.fam
        if f == "arr":
            k = r.choice(["set", "set", "resize", "shape"] + (["push", "push"] if ep.ndim == 1 else []))
            if k == "set":
                if not s["vals"]:
                    return None
                return k, [r.randrange(d) for d in s["dims"]] + [self.value()]
            if k == "resize":
                return k, [r.randrange(0, 5)]
            if k == "shape":
                return k, [r.choice([0, 1, 2, 2, 3]) for _ in range(ep.ndim)]
            return k, [self.value()]
        if f == "text":
            return "resize", [r.randrange(0, 5)]
        if f == "sorted":
            k = r.choice(["insert"] * 5 + ["remove", "remove", "clear"])
            return k, [] if k == "clear" else [self.value()]
        if f in ("rows", "sets"):
            k = r.choice(["append", "append", "push", "push", "set", "erase", "compress"] if f == "rows" else ["append", "append", "insert", "insert", "remove", "erase", "compress"])
            if k == "append":
                return k, [self.value() for _ in range(r.randrange(0, 4))] if f == "rows" else [r.randrange(0, 4)]
            if k == "compress":
                return k, []
            if not s:
                return None
            i = r.randrange(len(s))
            if k == "erase":
                return k, [i]
            if k == "set":
                return (k, [i, r.randrange(len(s[i])), self.value()]) if s[i] else None
            return k, [i, self.value()]
        k = r.choice(["insert", "insert", "insert", "remove", "set", "resize", "compress"])
        if k == "compress":
            return k, []
        if k == "resize":
            top = max([x for c in s["cols"] for x in c] + [-1]) + 1
            return k, [r.randrange(0, 5), max(top, r.choice([1, 4, 6])), r.randrange(0, 4)]
        if not s["cols"] or not s["nc"]:
            return None
        i = r.randrange(len(s["cols"]))
        if k == "set":
            return (k, [i, r.randrange(len(s["cols"][i])), self.value()]) if s["cols"][i] else None
        return k, [i, r.randrange(s["nc"])] + ([self.value()] if k == "insert" else [])

    def next(self, ep):
        """the next operation, or None to try again"""
        r = self.r
        later, self.later = self.later, None
        if later and ep.fam == "crs" and later["w"] in ep.w:
            return later
        x = r.random()
        have = sorted(ep.w)
        if not have:
            return {"op": "wrap", "w": 1} if x < 0.7 else self.outside(ep)
        if x < 0.04:
            return {"op": "wrap", "w": r.choice([1, 2])}
        w = r.choice(have)
        if x < 0.06:
            return {"op": "drop", "w": w}
        if x < 0.14 or (x < 0.3 and ep.w[w].get_access_level() < 1):
            how = r.choice(["one"] * 5 + ["cpu", "elsewhere", "text", "huge", "none"])
            return {"op": "level", "w": w, "v": r.choice([0, 1, 2, 2, 2, -1, 3]), "how": how}
        if x < 0.45:
            m, i, a = self.calls(ep)
            bad = r.choice([1, 2, 3, 4, 5]) if r.random() < 0.08 else 0
            if bad in (1, 5) and not i or bad in (2, 4) and not (i or a) or bad == 4 and (m in ("resize",) and len(i) == 3 or m == "insert" and ep.fam == "sets" and len(i) == 2):
                bad = 0
            return {"op": "py", "w": w, "m": m, "i": i, "args": a, "bad": bad}
        if x < 0.55:
            return self.outside(ep)
        if x < 0.68:
            parts = {"arr": ["whole"], "sorted": ["whole"], "rows": ["row"], "sets": ["row"], "crs": ["cols", "ents", "ents", "sp", "sp"]}.get(ep.fam)
            if not parts:
                return None
            n = len(ep.state()) if ep.fam in ("rows", "sets") else len(ep.state()["cols"]) if ep.fam == "crs" else 1
            p = r.choice(parts)
            i = self.index(n) if p not in ("whole", "sp") else 0
            if p == "sp":
                s = ep.state()
                if not any(s["ents"]) and n and s["nc"] and r.random() < 0.8:
                    return {"op": "native", "do": "insert", "i": [r.randrange(n), r.randrange(s["nc"]), self.value()]}
                if not s["comp"] and r.random() < 0.8:
                    self.later = {"op": "look", "w": w, "s": r.choice([1, 2]), "part": p, "i": i}
                    return {"op": "native", "do": "compress", "i": []}
            return {"op": "look", "w": w, "s": r.choice([1, 2]), "part": p, "i": i}
        if x < 0.78:
            if not ep.views:
                return None
            s = r.choice(sorted(ep.views))
            v = ep.views[s]
            n = v.data.size if scipy.sparse.issparse(v) else v.size
            return {"op": "poke", "s": s, "k": r.randrange(n), "v": abs(self.value())} if n else None
        if x < 0.80:
            return {"op": "forget", "s": r.choice(sorted(ep.views))} if ep.views else None
        if x < 0.84 and ep.fam in ("rows", "sets"):
            how = r.choice(["len", "del", "del", "del", "set", "add", "mul", "slice", "text", "attr"])
            return {"op": "item", "w": w, "how": how, "i": self.index(len(ep.state()))}
        if x < 0.88:
            return {"op": "call", "w": r.choice([1, 2]), "how": r.choice(["ok", "raise", "keep", "level", "notfun", "wrongargs"])}
        if x < 0.91:
            return {"op": "bare", "m": r.choice(METHODS[TYPES[ep.fam]] + ["dtype"])}
        if x < 0.93:
            return {"op": "repr", "w": w}
        if x < 0.95:
            return {"op": "convert", "w": r.choice([0, w]), "to": r.choice(list(METHODS))}
        return self.general(ep)

    def outside(self, ep):
        if ep.fam == "text" and self.r.random() < 0.7:
            s = self.r.choice([b"", b"a", b"bc", b"\xc3\xa9", b"x\0y", b"a", b"bc", b"\xff"] if self.r.random() < 0.4 else [b"", b"a", b"bcd"])
            return {"op": "text", "s": list(s)}
        n = self.native(ep)
        return n and {"op": "native", "do": n[0], "i": n[1]}

    def general(self, ep):
        r = self.r
        k = r.choice(["scalar", "scalar", "parse", "parse", "parse", "show", "typename", "module", "constants", "unmade", "cupy"])
        if k == "unmade":
            return {"op": k, "of": r.choice(list(METHODS))}
        if k == "cupy":
            n = r.choice([0, 1, 1, 2, 2, 3, 4])
            d = [r.choice([0, 1, 2, 7, 300, 400]) for _ in range(n)]
            while n and eval("*".join(map(str, d))) > 200000000:
                d[r.randrange(n)] = 2
            return {"op": k, "of": r.choice(["u8", "i16", "i32", "u64", "f32", "f64", "f64", "bool"]), "ptr": r.randrange(1, 1000000), "how": r.choice(["ok"] * 5 + ["missing", "other", "raise"]),
                    "dims": d, "strides": [r.choice([0, 1, 2, 300, 500, 400, 90000]) for _ in range(n)]}
        if k == "scalar":
            what = r.choice(["double", "int", "constint", "two", "string", "strings", "badstring"])
            return {"op": k, "what": what, "v": r.randrange(0, 50), "how": r.choice(["read", "raise"] + (["write"] * 2 if what in ("double", "int", "constint", "two") else []))}
        if k == "parse":
            to = r.choice([x for x in DT if x not in ("bool", "c128")])
            return {"op": k, "to": to, "arg": self.arg(ep, to, lo=0)}
        if k == "show":
            return {"op": k, "of": r.choice([x for x in DT if x != "c128"] + ["c"]), "v": r.randrange(0, 90)}
        if k == "typename":
            return {"op": k, "of": r.choice(list(DT) + ["obj"])}
        if k == "module":
            return {"op": k, "how": r.choice(["ok", "ok", "missing"])}
        return {"op": k}

    def ref(self, ep):
        r = self.r
        free = [k for k in (1, 2, 3) if k not in ep.refs]
        have = sorted(ep.refs)
        c = []
        if free:
            c += [("make", free[0], 0), ("take", free[0], r.choice([1, 2]))]
            if have:
                c += [("copyMake", free[0], r.choice(have)), ("moveMake", free[0], r.choice(have))]
        if have:
            a, b = r.choice(have), r.choice(have)
            c += [("give", a, r.choice([0, 1, 2])), ("copy", a, b), ("move", a, b), ("copy", a, b), ("move", a, b), ("release", a, 0), ("end", a, 0)]
            empty = [k for k in have if vp.ref("get", k, None) is None]
            if empty:
                c += [("fill", empty[0], r.choice([0, 1, 2]))]
        d, i, o = r.choice(c)
        return {"op": "ref", "do": d, "i": i, "o": o}


# ------------------------------------------------------------------------------------------------------------- main
def arguments():
    a = {}
    i = 2
    while i + 1 < len(sys.argv):
        a[sys.argv[i][2:]] = sys.argv[i + 1]
        i += 2
    return a


A = arguments()
sys.path.append(os.path.join(A["repo"], "src", "python"))
OUT = open(sys.argv[1], "w")


def write(e):
    OUT.write(json.dumps(e, separators=(",", ":")) + "\n")
    OUT.flush()


def broken(e, x):
    """Looking at the objects fails after e: no specification has an action for that."""
    write({"op": "CRASH", "how": "cannot look at the objects: %s: %s" % (type(x).__name__, str(x)[:300]), "during": e})
    OUT.close()
    os._exit(0)


WATCH = [np.dtype(t).type for t in DT.values()] + [np.object_, np.ndarray, scipy.sparse.csr_matrix, pylvarray, pylvarray.Array, pylvarray.SortedArray, pylvarray.ArrayOfArrays,
                                                  pylvarray.ArrayOfSets, pylvarray.CRSMatrix, scipy.sparse] + [np.dtype(t) for t in DT.values()]


def again(kind, ops):
    ep = Episode(kind)
    for o in ops:
        ep.do(o)
    ep.close()


def window(kind, ops, n):
    """What n executions of the history leave behind, per execution."""
    gc.collect()
    refs = [sys.getrefcount(x) for x in WATCH]
    news, blocks = vp.news(), sys.getallocatedblocks()
    for _ in range(n):
        again(kind, ops)
    gc.collect()
    blocks, news = sys.getallocatedblocks() - blocks, vp.news() - news
    refs = [sys.getrefcount(x) - y for x, y in zip(WATCH, refs)]
    return [int(x / n) for x in [blocks, news] + refs]


def rounds(kind, ops):
    """How much memory and how many references one execution of the history leaves behind: a leak does so whenever it is executed,
    while the interpreter's caches fill up only once."""
    best = None
    for _ in range(40):
        w = window(kind, ops, 5)
        best = w if best is None else [min(x, y, key=abs) for x, y in zip(best, w)]
        if not any(best):
            break
    return {"op": "rounds", "blocks": best[0], "news": best[1], "refs": [x for x in best[2:] if x]}


def begin(kind):
    ep = Episode(kind)
    write(ep.observe({"op": "begin", "kind": kind}))
    return ep


def main():
    leak = A.get("leak") == "1"
    if "script" in A:
        for line in open(A["script"]):
            ops = json.loads(line)
            kinds = ops[0]["kinds"] if ops and ops[0]["op"] == "kinds" else [""]
            for kind in kinds:
                ep = begin(kind)
                done = []
                for o in ops[1:]:
                    write(ep.do(o))
                ep.close()
                if leak:
                    write(rounds(kind, ops[1:]))
    else:
        g = Gen(int(A.get("seed", "1")))
        kinds = A["kinds"].split(",") if "kinds" in A else list(KINDS) + [""]
        for n in range(int(A.get("n", "10"))):
            kind = kinds[n % len(kinds)]
            ep = begin(kind)
            done = []
            while len(done) < int(A.get("len", "40")):
                o = g.next(ep) if kind else g.ref(ep) if g.r.random() < 0.7 else g.general(ep)
                if o:
                    e = ep.do(o)
                    write(e)
                    done.append(o)
            ep.close()
            if leak:
                write(rounds(kind, done))
    write({"op": "end"})
    OUT.close()


main()
