"""Machinery shared by all checks: builds drivers from /repo's working tree, runs them, validates their traces with
TLC against the specifications in /verif/spec, and reports."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
SHIM = os.path.join(VERIF, "shim")
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"       # NumPy and SciPy, with the NumPy headers
PYTHON = ["-I/usr/include/python3.12", "-isystem", SITE + "/numpy/_core/include"]
PYLIB = ["-lpython3.12"]
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


class CheckError(Exception):
    """Something is wrong with the check itself (not with the code)."""


# ------------------------------------------------------------------------------------------------------- building
CONFIGS = {
    # name: macros defined in LvArrayConfig.hpp
    "bounds": ["LVARRAY_BOUNDS_CHECK"],
    "nobounds": [],
    "tv": ["LVARRAY_BOUNDS_CHECK", "LVARRAY_USE_TOTALVIEW_OUTPUT"],
    "tvnb": ["LVARRAY_USE_TOTALVIEW_OUTPUT"],
    "chai": ["LVARRAY_BOUNDS_CHECK", "LVARRAY_USE_CHAI", "LVARRAY_USE_CUDA", "LVARRAY_USE_UMPIRE"],
    "chaihost": ["LVARRAY_BOUNDS_CHECK", "LVARRAY_USE_CHAI", "LVARRAY_USE_UMPIRE"],
    "umpire": ["LVARRAY_BOUNDS_CHECK", "LVARRAY_USE_UMPIRE"],
    "addr2line": ["LVARRAY_ADDR2LINE_EXEC"],
}
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,null", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
VARIANTS = {
    # name: (compiler, flags, config)
    "asan": ("g++", ["-O1"] + ASAN, "bounds"),
    "asan-nb": ("g++", ["-O1"] + ASAN, "nobounds"),
    "asan-rel": ("g++", ["-O1", "-DNDEBUG"] + ASAN, "nobounds"),
    "rel": ("g++", ["-O2", "-DNDEBUG"], "nobounds"),
    "relb": ("g++", ["-O2", "-DNDEBUG"], "bounds"),
    "dbg": ("g++", ["-O0"], "bounds"),
    "dbgnb": ("g++", ["-O0"], "nobounds"),
    "clangdbg": ("clang++", ["-O0"], "bounds"),
    "chaidbg": ("g++", ["-O0"], "chai"),
    "clang": ("clang++", ["-O2"], "bounds"),
    "clangrel": ("clang++", ["-O2", "-DNDEBUG"], "nobounds"),
    "tv": ("g++", ["-O1"] + ASAN, "tv"),
    "tvrel": ("g++", ["-O2", "-DNDEBUG"], "tv"),
    "tvnb": ("g++", ["-O2", "-DNDEBUG"], "tvnb"),
    "chai": ("g++", ["-O1"] + ASAN, "chai"),
    "chaihost": ("g++", ["-O1"] + ASAN, "chaihost"),
    "umpire": ("g++", ["-O1"] + ASAN, "umpire"),
    "addr2line": ("g++", ["-O1", "-fno-pie"], "addr2line"),   # addr2line knows the places of an executable that is not relocated
    "tsan": ("g++", ["-O1", "-fsanitize=thread"], "nobounds"),
}


class Build:
    def __init__(self, work):
        self.work = work
        self.cache = os.path.join(VERIF, ".work", "cache")
        os.makedirs(self.cache, exist_ok=True)
        self.objs = {}

    def config_dir(self, name):
        d = os.path.join(self.work, "cfg-" + name)
        if not os.path.isdir(d):
            os.makedirs(d, exist_ok=True)
            text = open(os.path.join(SRC, "LvArrayConfig.hpp.in")).read()
            ver = open(os.path.join(REPO, "CMakeLists.txt")).read()
            for part in ("MAJOR", "MINOR", "PATCHLEVEL"):
                m = re.search(r"set\( LVARRAY_VERSION_%s (\d+)" % part, ver)
                text = text.replace("@LVARRAY_VERSION_%s@" % part, m.group(1) if m else "0")
            text = text.replace("@LVARRAY_ADDR2LINE_EXEC@", "/usr/bin/addr2line")

            def sub(m):
                on = m.group(1) in CONFIGS[name]
                return ("#define %s%s" % (m.group(1), m.group(2))) if on else "/* #undef %s */" % m.group(1)
            text = re.sub(r"#cmakedefine (\w+)([^\n]*)", sub, text)
            tmp = os.path.join(d, ".tmp%d" % os.getpid())
            with open(tmp, "w") as f:
                f.write(text)
            os.rename(tmp, os.path.join(d, "LvArrayConfig.hpp"))
        return d

    def compile(self, src, variant, extra=()):
        """Compile one source to an object; the result is reused when the preprocessed text is the same."""
        cxx, flags, config = VARIANTS[variant]
        isc = src.endswith(".c")
        if isc:
            cxx = {"g++": "gcc", "clang++": "clang"}[cxx]
        std = [] if isc else ["-std=c++14"]
        cmd = [cxx] + std + ["-g1", "-w", "-pthread"] + flags + ["-I" + self.config_dir(config), "-I" + SHIM, "-I" + SRC, "-I" + HARNESS] + list(extra)
        pre = subprocess.run(cmd + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if pre.returncode != 0:
            raise CheckError("cannot preprocess %s (%s):\n%s" % (src, variant, pre.stderr.decode(errors="replace")[-3000:]))
        text = re.sub(rb'(?m)^# (\d+) "[^"]*cfg-[^"]*"', rb"# \1", pre.stdout)
        h = hashlib.sha256(" ".join(cmd[:1] + flags + list(extra)).encode() + b"\0" + text).hexdigest()[:32]
        obj = os.path.join(self.cache, h + ".o")
        if not os.path.exists(obj):
            tmp = "%s.%d.%d.tmp" % (obj, os.getpid(), time.time_ns())
            p = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                out = p.stdout.decode(errors="replace")
                errs = "\n".join([x for x in out.splitlines() if "error" in x][:10])
                raise CheckError("cannot compile %s (%s):\n%s\n%s" % (src, variant, errs, out[-2000:]))
            os.rename(tmp, obj)
        return obj

    def link(self, objs, variant, out):
        cxx, flags, _ = VARIANTS[variant]
        p = subprocess.run([cxx, "-pthread"] + flags + objs + ["-ldl", "-rdynamic", "-o", out] + (["-no-pie"] if variant == "addr2line" else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise CheckError("cannot link %s:\n%s" % (out, p.stdout.decode(errors="replace")[-3000:]))
        return out

    def drivers(self, wanted):
        """wanted: list of (driver name, variant, lib sources, extra flags) -> {(name, variant): exe}"""
        jobs, exes = {}, {}
        for _, variant, _, _ in wanted:
            self.config_dir(VARIANTS[variant][2])
        with cf.ThreadPoolExecutor(CORES) as ex:
            plan = {}
            libs_of = {(w[0], w[1]): w[2] for w in wanted}
            for name, variant, libs, extra in wanted:
                py = list(PYTHON) if any(s.startswith("python/") for s in libs) else []
                srcs = [(os.path.join(HARNESS, name.split("@")[0] + ".cpp"), tuple(list(extra) + py))]
                for s in libs:
                    for f in sorted(glob.glob(os.path.join(SRC, s))):
                        srcs.append((f, tuple(PYTHON) if s.startswith("python/") else ()))
                plan[(name, variant)] = [(s, variant, e) for s, e in srcs]
                # the longest compilations first
                for s, e in srcs:
                    k = (s, variant, e)
                    if k not in jobs:
                        jobs[k] = ex.submit(self.compile, s, variant, e)
            for key, ks in plan.items():
                objs = [jobs[k].result() for k in ks]
                exes[key] = self.link(objs + (PYLIB if any(s.startswith("python/") for s in libs_of[key]) else []), key[1], os.path.join(self.work, "%s-%s" % (key[0].replace("@", "_"), key[1])))
        return exes


# ------------------------------------------------------------------------------------------------------- running
def run_driver(exe, args, out, timeout, env=None):
    """Run a driver. A crash or a hang becomes the last event of the trace: no specification has an action for it."""
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:exitcode=99"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    e["TSAN_OPTIONS"] = "exitcode=0:report_thread_leaks=0"
    e.update(env or {})
    err = out + ".stderr"
    with open(err, "wb") as f:
        p = subprocess.Popen([exe, out] + [str(a) for a in args], stdout=subprocess.DEVNULL, stderr=f, env=e, start_new_session=True)
        hung = False
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            hung = True
            p.send_signal(signal.SIGTERM)
            try:
                rc = p.wait(timeout=5)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                rc = p.wait()
    lines = open(out, "rb").read().split(b"\n") if os.path.exists(out) else []
    lines = [x for x in lines if x.strip()]
    if rc == 3 and not lines:
        raise CheckError("driver %s %s: usage error\n%s" % (exe, args, open(err, errors="replace").read()[-2000:]))
    ended = bool(lines) and b'"op":"end"' in lines[-1]
    if not ended:
        if lines:
            try:
                json.loads(lines[-1])
            except ValueError:
                lines.pop()
        if not lines or b'"op":"CRASH"' not in lines[-1]:
            lines.append(json.dumps({"op": "HANG" if hung else "CRASH", "how": "exit status %d" % rc, "during": ""}).encode())
    elif rc != 0:
        lines[-1:] = [json.dumps({"op": "CRASH", "how": "exit status %d after the last operation" % rc, "during": ""}).encode()]
    return lines


class Tlc:
    def __init__(self, work):
        self.work = work
        self.n = 0

    def run(self, module, cfg, env=None, workers=1, timeout=600, extra=(), heap="3g"):
        self.n += 1
        meta = os.path.join(self.work, "tlc-%d-%d" % (os.getpid(), id(object()) ^ self.n ^ time.time_ns()))
        e = dict(os.environ)
        e.update(env or {})
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", gc, "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=%d" % (4 if timeout > 0 else 1), "-cp", JARS, "tlc2.TLC", "-metadir", meta,
               "-workers", str(workers), "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module)]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=SPEC, timeout=timeout)
            text, rc = p.stdout.decode(errors="replace"), p.returncode
        except subprocess.TimeoutExpired as t:
            text, rc = (t.stdout or b"").decode(errors="replace"), -1
        shutil.rmtree(meta, ignore_errors=True)
        return rc, text


MODEL_OF_CODE = re.compile(r"Attempted to|not in the domain|outside (of )?the domain|is not in|CHOOSE|Index out of|out of bounds|FORMAT", re.I)


def validate_chunk(tlc, module, cfg, path, n, timeout, extra_env=None):
    """-> ('ok', states) | ('reject', index, text) | ('error', text)"""
    env = {"TRACE": path, "FACET": "all"}
    env.update(extra_env or {})
    rc, text = tlc.run(module + ".tla", cfg, env=env, timeout=timeout)
    m = re.search(r'<<"REJECTED", (\d+)>>', text)
    if m:
        return ("reject", int(m.group(1)), text)
    if rc == 0 and "Model checking completed. No error has been found." in text and '"ACCEPTED"' in text:
        return ("ok", 0, text)
    # An expression of the specification has no value for this event: the event is not one the specification allows.
    m = re.search(r"The error occurred when TLC was evaluating|Error: TLC threw an unexpected exception|Error: Evaluating|Error: The first argument|Error: Attempted", text)
    if m and MODEL_OF_CODE.search(text):
        m2 = re.findall(r"(?m)^/\\ l = (\d+)", text)
        if m2:
            return ("reject", int(m2[-1]), text)
        m3 = re.findall(r"(?m)^l = (\d+)", text)
        if m3:
            return ("reject", int(m3[-1]), text)
    m = re.search(r"Invariant (\w+) is violated", text)
    if m:
        m2 = re.findall(r"(?m)^/\\ l = (\d+)", text)
        return ("reject", int(m2[-1]) - 1 if m2 else 1, text)
    return ("error", 0, text)


# ------------------------------------------------------------------------------------------------------- one check
class Check:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", pid + ("" if REPO == "/repo" else "-" + hashlib.md5(REPO.encode()).hexdigest()[:6]))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.build = Build(self.work)
        self.tlc = Tlc(self.work)
        self.models = []       # (module, states, transitions)
        self.traces = 0
        self.events = 0
        self.ops = {}
        self.samples = []
        self.distinct = set()
        self.violations = []
        self.notes = []
        self.known = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print("[%s %5.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---- the model on its own
    def model(self, module, cfg, timeout=600, workers=4, emit=False, require=(), extra=(), heap="6g"):
        """Exhaustive check of the model. With emit, returns the operation paths it printed."""
        rc, text = self.tlc.run(module + ".tla", cfg, workers=workers, timeout=timeout, extra=extra, heap=heap)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, (\d+) states left", text)
        if rc != 0 or not m or "No error has been found" not in text:
            raise CheckError("model %s/%s does not check (rc %d):\n%s" % (module, cfg, rc, "\n".join(x for x in text.splitlines() if not x.startswith('"@'))[-3000:]))
        gen, dist, left = (int(x.replace(",", "")) for x in m.groups())
        if left:
            raise CheckError("model %s/%s was not explored completely" % (module, cfg))
        self.models.append((cfg.replace(".cfg", ""), dist, gen))
        self.log("model %s: %d states, %d transitions" % (cfg, dist, gen))
        if not emit:
            return []
        paths = []
        for line in text.splitlines():
            if line.startswith('"@'):
                try:
                    paths.append(json.loads(json.loads(line)[1:]))
                except ValueError:
                    pass       # several workers printing at once
        return paths

    @staticmethod
    def leaves(paths):
        """Drop the paths that are prefixes of others."""
        keyed = sorted((tuple(json.dumps(o, sort_keys=True) for o in p), i) for i, p in enumerate(paths))
        keep = []
        for k, (t, i) in enumerate(keyed):
            if k + 1 < len(keyed) and keyed[k + 1][0][:len(t)] == t:
                continue
            keep.append(paths[i])
        return keep

    def scripts(self, paths, limit=None, name="script"):
        """Write paths of operation records as a script file for a driver."""
        import random
        paths = self.leaves(paths)
        total = len(paths)
        if limit and total > limit:
            random.Random(self.seed).shuffle(paths)
            paths = paths[:limit]
        f = os.path.join(self.work, name + ".txt")

        def val(v):
            if isinstance(v, bool):
                return str(int(v))
            if isinstance(v, list):
                return ",".join(val(x) for x in v)
            if isinstance(v, str):
                return "'" + v + "'"
            return str(v)
        with open(f, "w") as o:
            for p in paths:
                o.write(";".join(" ".join([r["op"]] + ["%s=%s" % (k, val(v)) for k, v in sorted(r.items()) if k != "op"]) for r in p) + "\n")
        self.notes.append("%s: %d of %d specification paths (every transition of the model) executed" % (name, len(paths), total))
        return f

    def jsonScripts(self, paths, limit, name):
        """The same with one JSON list per line, as evenly as possible over the first records."""
        import random
        paths = self.leaves(paths)
        total = len(paths)
        random.Random(self.seed).shuffle(paths)
        kinds = {}
        for p in paths:
            kinds.setdefault(json.dumps(p[0], sort_keys=True), []).append(p)
        some, k = [], 0
        while len(some) < min(limit, total):
            some += [g[k] for g in kinds.values() if k < len(g)]
            k += 1
        f = os.path.join(self.work, name + ".jsonl")
        with open(f, "w") as o:
            for p in some:
                o.write(json.dumps(p) + "\n")
        self.notes.append("%s: %d of %d specification paths executed" % (name, len(some), total))
        return f

    # ---- running and validating
    def run_all(self, runs, timeout=120):
        """runs: list of (exe, args, tag[, env]) -> list of (tag, lines, rerun)"""
        def one(k):
            exe, args, tag = runs[k][:3]
            env = runs[k][3] if len(runs[k]) > 3 else None
            out = os.path.join(self.work, "trace-%d.ndjson" % k)
            lines = run_driver(exe, args, out, timeout, env)
            return (tag, lines, (exe, args, tag, env, timeout))
        with cf.ThreadPoolExecutor(CORES) as ex:
            return list(ex.map(one, range(len(runs))))

    def validate(self, module, results, cfg=None, chunk=20000, timeout=600, require=(), env=None, retry=1):
        """results: from run_all. Every trace is split at its episode starts and validated against the specification."""
        cfg = cfg or module + ".cfg"
        episodes = []
        for tag, lines, rerun in results:
            cur = None
            for line in lines:
                if b'"op":"end"' in line[:12]:
                    continue
                if line.startswith(b'{"op":"begin"') or cur is None:
                    cur = []
                    episodes.append((tag, cur, rerun))
                cur.append(line)
        before = dict(self.ops)
        for tag, ep, _ in episodes:
            for line in ep:
                m = re.match(rb'\{"op": ?"([^"]*)"', line)
                k = m.group(1).decode() if m else "?"
                self.ops[k] = self.ops.get(k, 0) + 1
            self.distinct.add(hashlib.md5(b"\n".join(ep[1:] if len(ep) > 1 else ep)).digest())
        chunks, cur, size = [], [], 0
        for e in episodes:
            if cur and size + len(e[1]) > chunk:
                chunks.append(cur)
                cur, size = [], 0
            cur.append(e)
            size += len(e[1])
        if cur:
            chunks.append(cur)
        # use all cores
        if len(chunks) < CORES and len(episodes) > 1:
            total = sum(len(e[1]) for e in episodes)
            target = max(1500, total // CORES + 1)
            if target < chunk:
                return self._validate_chunks(module, cfg, self._rechunk(episodes, target), timeout, require, before, env, retry)
        return self._validate_chunks(module, cfg, chunks, timeout, require, before, env, retry)

    @staticmethod
    def _rechunk(episodes, target):
        chunks, cur, size = [], [], 0
        for e in episodes:
            if cur and size + len(e[1]) > target:
                chunks.append(cur)
                cur, size = [], 0
            cur.append(e)
            size += len(e[1])
        if cur:
            chunks.append(cur)
        return chunks

    def _validate_chunks(self, module, cfg, chunks, timeout, require, before, env, retry):
        def one(k):
            eps = chunks[k]
            path = os.path.join(self.work, "chunk-%s-%d.ndjson" % (module, k))
            found = []
            while eps and len(found) < 3:
                with open(path, "wb") as f:
                    for e in eps:
                        f.write(b"\n".join(e[1]) + b"\n")
                n = sum(len(e[1]) for e in eps)
                res = validate_chunk(self.tlc, module, cfg, path, n, timeout, env)
                if res[0] == "ok":
                    return found, sum(len(e[1]) for e in eps), len(eps)
                if res[0] == "error":
                    raise CheckError("TLC failed on %s with %s:\n%s" % (path, module, res[2][-3000:]))
                idx, at = res[1], 0
                for j, e in enumerate(eps):
                    if idx <= at + len(e[1]):
                        found.append((e, idx - at, res[2]))
                        eps = eps[j + 1:]
                        break
                    at += len(e[1])
                else:
                    raise CheckError("TLC rejects an event past the end of %s" % path)
            return found, 0, 0
        with cf.ThreadPoolExecutor(CORES) as ex:
            outs = list(ex.map(one, range(len(chunks))))
        nev = sum(len(e[1]) for c in chunks for e in c)
        nep = sum(len(c) for c in chunks)
        self.events += nev
        self.traces += nep
        rejected = [r for o in outs for r in o[0]]
        self.log("%s: %d traces, %d events, %d rejected" % (module, nep, nev, len(rejected)))
        if not self.samples or len(self.samples) < 6:
            for c in chunks[:1]:
                for e in c[:2]:
                    self.samples.append({"spec": module, "driver": e[0], "trace": [x.decode(errors="replace")[:300] for x in e[1][:6]]})
        if not rejected:
            missing = [o for o in require if self.ops.get(o, 0) == before.get(o, 0)]
            if missing:
                raise CheckError("the traces contain no event of kind %s: the check would be vacuous" % missing)
        for e, idx, text in rejected[:2]:
            self.reject(module, cfg, e, idx, text, env, retry)
        return len(rejected)

    def reject(self, module, cfg, episode, idx, text, env, retry):
        """Confirm a rejection by running the driver again, then record the violation."""
        tag, lines, rerun = episode
        again = False
        if retry == 0 or rerun is None:
            again = True
        for attempt in range(retry):
            out = os.path.join(self.work, "confirm-%d-%d.ndjson" % (len(self.violations), attempt))
            exe, args, _, denv, limit = rerun
            ls = [x for x in run_driver(exe, args, out, limit, denv) if b'"op":"end"' not in x[:12]]
            with open(out, "wb") as f:
                f.write(b"\n".join(ls) + b"\n")
            res = validate_chunk(self.tlc, module, cfg, out, len(ls), 600, env)
            if res[0] == "reject":
                again = True
                break
        if not again:
            raise CheckError("a rejected trace of %s was not rejected again when its driver was run again: event %s" % (tag, lines[idx - 1][:500]))
        d = os.path.join(VERIF, "replays", self.pid)
        os.makedirs(d, exist_ok=True)
        n = len(self.violations) + 1
        path = os.path.join(d, "%d.ndjson" % n)
        with open(path, "wb") as f:
            f.write(b"\n".join(lines[:idx]) + b"\n")
        with open(os.path.join(d, "%d.txt" % n), "w") as f:
            f.write("The last event of %d.ndjson is not a step of spec/%s.tla.\nValidate: cd %s && TRACE=%s java -cp %s tlc2.TLC -config %s %s.tla\n" % (n, module, SPEC, path, JARS, cfg, module))
            f.write("Recorded by: %s %s (seed %s, %s)\n" % (os.path.basename(rerun[0]) if rerun else "-", rerun[1] if rerun else "", self.seed, tag))
            f.write("Event: %s\n\nTLC:\n%s\n" % (lines[idx - 1].decode(errors="replace"), text[-6000:]))
            if rerun:
                try:
                    errs = glob.glob(os.path.join(self.work, "confirm-%d-*.stderr" % len(self.violations)))
                    for e in errs:
                        f.write("\nstderr of the driver:\n" + open(e, errors="replace").read()[:6000])
                except OSError:
                    pass
        self.violations.append(path)
        ev = lines[idx - 1].decode(errors="replace")
        self.log("REJECTED by %s (%s): event %d: %s" % (module, tag, idx, ev[:700]))
        if idx >= 2:
            self.log("   after: %s" % lines[idx - 2].decode(errors="replace")[:500])

    # ---- reporting
    def finish(self):
        cov = {
            "states": sum(m[1] for m in self.models),
            "transitions": sum(m[2] for m in self.models),
            "traces_validated_against_impl": self.traces,
            "distinct_traces": len(self.distinct),
            "events_validated": self.events,
            "events_by_kind": self.ops,
            "models": [{"model": m[0], "distinct_states": m[1], "transitions": m[2]} for m in self.models],
            "samples": self.samples[:6],
            "notes": self.notes,
        }
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
            "assumptions": self.assumptions if hasattr(self, "assumptions") else [],
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(VERIF, "evidence", "%s.json" % self.pid))
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0]), flush=True)
            return 1
        self.log("held on everything explored")
        return 0
