"""Run by gdb on the gdbview driver: shows the local "obj" of look() the way the debugger does and writes it into vp_shown."""
import json

import gdb


def number(v):
    t = v.type.strip_typedefs()
    return int(float(v)) if t.code == gdb.TYPE_CODE_FLT else int(v)


def view(v):
    """The extents and the elements of a C array."""
    dims, t = [], v.type.strip_typedefs()
    while t.code == gdb.TYPE_CODE_ARRAY:
        lo, hi = t.range()
        if lo != 0:
            raise ValueError("an array that starts at %d" % lo)
        dims.append(hi + 1)
        t = t.target().strip_typedefs()

    def elements(x, k):
        if k == len(dims):
            return [number(x)]
        r = []
        for i in range(dims[k]):
            r += elements(x[i], k + 1)
        return r
    return {"dims": dims, "values": elements(v, 0) if 0 not in dims else []}


def printed(v):
    """The object, or the first of its base classes, that has a printer of the library."""
    p = gdb.default_visualizer(v)
    if p is not None:
        return p
    for f in v.type.strip_typedefs().fields():
        if f.is_base_class:
            p = printed(v[f])
            if p is not None:
                return p
    return None


def shown(v):
    v = v.referenced_value()
    try:
        p = printed(v)
        if p is None:
            return {"ok": False, "error": "no printer for %s" % v.type}
        text = p.to_string()
        children = list(p.children())
        r = {"ok": True, "text": [ord(c) for c in text], "views": [], "rows": []}
        fields = set()
        for name, c in children:
            if name == "gdb_view":
                # a buffer without an allocation shows its null pointer
                if c.type.strip_typedefs().code == gdb.TYPE_CODE_PTR:
                    r["views"].append({"dims": [0] if int(c) == 0 else [-1], "values": []})
                else:
                    r["views"].append(view(c))
            elif name.isdigit():
                if int(name) != len(r["rows"]):
                    raise ValueError("row %s after %d rows" % (name, len(r["rows"])))
                r["rows"].append(view(c))
        # printing the whole object works as well
        gdb.execute("output obj", to_string=True)
        return r
    except Exception as e:
        return {"ok": False, "error": repr(e)[:200]}


def main():
    for s in ("confirm off", "pagination off", "disable-randomization off", "startup-with-shell off", "print elements unlimited"):
        gdb.execute("set " + s)
    gdb.execute("handle all nostop noprint pass", to_string=True)
    gdb.execute("handle SIGTRAP SIGINT stop print nopass", to_string=True)
    gdb.execute("break vp_stop", to_string=True)
    gdb.execute("run", to_string=True)
    thread = gdb.selected_thread()
    if thread is None or not thread.is_valid():
        # ended before the first object
        gdb.execute("quit 3")
    buf = None
    while gdb.selected_thread() is not None and gdb.selected_thread().is_valid():
        frame = gdb.selected_frame()
        if frame.name() != "vp_stop":
            break
        frame.older().select()
        r = shown(gdb.selected_frame().read_var("obj"))
        text = json.dumps(r).encode() + b"\0"
        if buf is None:
            buf = int(gdb.lookup_global_symbol("vp_shown").value().address)
        gdb.selected_inferior().write_memory(buf, text)
        gdb.execute("continue", to_string=True)
    code = gdb.convenience_variable("_exitcode")
    gdb.execute("quit %d" % (1 if code is None else int(code)))


try:
    main()
except gdb.error as e:
    print("gdb: %s" % e)
    gdb.execute("quit 3")
