#!/usr/bin/env python3
"""Runner of the runtime-monitoring checks.

  run.py check <property>        decide a property (VERIF_SEED, VERIF_TIER)
  run.py replay <replay.json>    rerun the failing case of a violation
  run.py build <harness> <cfg>   build a harness, print the path of the binary
  run.py list                    the jobs of every property

A check builds the harnesses it needs from the current tree of the repository,
runs them over many seeded cases under several instrumented builds, and decides
from what the monitors inside the harnesses observed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
import jobs as J  # noqa: E402

NPROC = min(8, os.cpu_count() or 8)


class HarnessError(Exception):
    pass


# --------------------------------------------------------------------------
# building
# --------------------------------------------------------------------------
WARN = ["-w"]
CONFIGS = {
    # The regular allocators as users test them: assertions on.
    "plain": dict(cc="gcc", flags=["-O2", "-g"], asan_impl=False),
    # The regular allocators as users ship them: assertions off.
    "rel": dict(cc="gcc", flags=["-O2", "-g", "-DNDEBUG"], asan_impl=False),
    # The regular allocators under AddressSanitizer and UBSan.
    "san": dict(cc="gcc", flags=[
        "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
        "-fno-sanitize-recover=all",
        "-fno-sanitize=pointer-overflow,nonnull-attribute"],
        asan_impl=False),
    # The AddressSanitizer-friendly implementation.
    "asan": dict(cc="gcc", flags=[
        "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
        "-fno-sanitize-recover=all",
        "-fno-sanitize=pointer-overflow,nonnull-attribute",
        "-D_FORTIFY_SOURCE=0"], asan_impl=True),
    # The same with assertions off.
    "asanrel": dict(cc="gcc", flags=[
        "-O2", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
        "-fno-sanitize-recover=all",
        "-fno-sanitize=pointer-overflow,nonnull-attribute",
        "-D_FORTIFY_SOURCE=0", "-DNDEBUG"], asan_impl=True),
    # Real threads under ThreadSanitizer.
    "tsan": dict(cc="gcc", flags=["-O1", "-g", "-fsanitize=thread"],
                 asan_impl=False),
    # Instrumented as for ThreadSanitizer, linked with our own runtime that
    # schedules cooperative threads at every memory access.
    "sched": dict(cc="gcc", flags=["-O1", "-g"], asan_impl=False,
                  sut_flags=["-fsanitize=thread"]),
    "schedrel": dict(cc="gcc", flags=["-O2", "-g", "-DNDEBUG"],
                     asan_impl=False, sut_flags=["-fsanitize=thread"]),
    # Built with support for Valgrind (ENABLE_VALGRIND), run under memcheck.
    "vg": dict(cc="gcc", flags=["-O1", "-g", "-fno-omit-frame-pointer",
                                "-fno-inline", "-DHK_VALGRIND"],
               asan_impl=False, valgrind=True),
    # small_class with the branchless search.
    "nobranch": dict(cc="gcc", flags=["-O2", "-g", "-DSMALL_CLASS_BRANCHLESS"],
                     asan_impl=False),
}
VALGRIND = ["valgrind", "-q", "--error-exitcode=67", "--exit-on-first-error=yes",
            "--leak-check=no", "--num-callers=20", "--undef-value-errors=yes"]
WRAP = ["malloc", "calloc", "realloc", "free", "posix_memalign",
        "aligned_alloc", "mmap", "munmap", "madvise"]
WRAPFLAGS = ["-Wl," + ",".join("--wrap=" + w for w in WRAP)]

ENV = dict(os.environ)
ENV.update({
    "LC_ALL": "C",
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1"
                    ":handle_abort=0:detect_stack_use_after_return=0"
                    ":max_malloc_fill_size=4096:quarantine_size_mb=32",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:exitcode=66"
                    ":suppressions=" + os.path.join(HARNESS, "tsan.supp"),
})


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def write_config_h(dst, asan):
    tmpl = os.path.join(REPO, "small/small_config.h.cmake")
    on = {"TARANTOOL_SMALL_HAVE_MAP_ANON", "TARANTOOL_SMALL_HAVE_MAP_ANONYMOUS",
          "TARANTOOL_SMALL_HAVE_MADVISE",
          "TARANTOOL_SMALL_HAVE_MADV_DONTDUMP"}
    if asan:
        on.add("ENABLE_ASAN")
    out = []
    for line in open(tmpl, errors="replace"):
        m = re.match(r"\s*#\s*cmakedefine(?:01)?\s+(\w+)(.*)", line)
        if m:
            if m.group(1) in on:
                out.append("#define %s%s\n" % (m.group(1),
                                               m.group(2).rstrip() or " 1"))
            else:
                out.append("/* #undef %s */\n" % m.group(1))
        else:
            out.append(line)
    os.makedirs(dst, exist_ok=True)
    with open(os.path.join(dst, "small_config.h"), "w") as f:
        f.writelines(out)


def lib_sources(asan):
    d = os.path.join(REPO, "small")
    names = sorted(n for n in os.listdir(d) if n.endswith(".c"))
    res = []
    for n in names:
        if n.endswith("_asan.c"):
            if asan:
                res.append(n)
        elif asan and n[:-2] + "_asan.c" in names:
            continue
        else:
            res.append(n)
    return [os.path.join(d, n) for n in res]


def run_cmds(cmds):
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for cmd, r in zip(cmds, ex.map(sh, cmds)):
            if r.returncode != 0:
                raise HarnessError("build failed: %s\n%s" % (
                    " ".join(cmd), r.stdout[-3000:]))


class Builder:
    def __init__(self, root):
        self.root = root
        self.bins = {}

    def build(self, wanted):
        """wanted: set of (harness, config). Compile everything in parallel."""
        comp, link = [], []
        libs = {}
        for cfg in sorted({c for _, c in wanted}):
            c = CONFIGS[cfg]
            d = os.path.join(self.root, cfg)
            os.makedirs(d, exist_ok=True)
            write_config_h(os.path.join(d, "inc"), c["asan_impl"])
            inc = ["-I", os.path.join(d, "inc"),
                   "-I", os.path.join(REPO, "include/small"),
                   "-I", os.path.join(REPO, "include"),
                   "-I", os.path.join(REPO, "third_party"),
                   "-iquote", HARNESS]
            base = WARN + ["-D_GNU_SOURCE"] + c["flags"] + inc
            if not c.get("valgrind"):
                base.append("-DNVALGRIND=1")
            objs = []
            for s in lib_sources(c["asan_impl"]):
                o = os.path.join(d, "lib_" + os.path.basename(s)[:-2] + ".o")
                comp.append([c["cc"], "-std=c99"] + base +
                            c.get("sut_flags", []) + ["-c", s, "-o", o])
                objs.append(o)
            libs[cfg] = (d, base, objs, c)
            o = os.path.join(d, "hk.o")
            # The kit is not part of what is watched, except that it must be
            # built for real threads when they run.
            kit = [f for f in base]
            comp.append([c["cc"], "-std=gnu11"] + kit +
                        ["-c", os.path.join(HARNESS, "hk.c"), "-o", o])
        for h, cfg in sorted(wanted):
            d, base, objs, c = libs[cfg]
            spec = J.HARNESSES[h]
            hobjs = [os.path.join(d, "hk.o")]
            for src in spec["src"]:
                o = os.path.join(d, h + "_" + src.replace(".", "_") + ".o")
                extra = list(spec.get("flags", []))
                if src in spec.get("sut", []):
                    extra += c.get("sut_flags", [])
                cc = [c["cc"], "-std=gnu11"]
                if src.endswith(".cc"):
                    cc = ["g++", "-std=gnu++17", "-fno-exceptions"]
                comp.append(cc + base + extra +
                            ["-c", os.path.join(HARNESS, src), "-o", o])
                hobjs.append(o)
            exe = os.path.join(d, h)
            link.append([c["cc"]] + c["flags"] + hobjs + objs + WRAPFLAGS +
                        ["-o", exe, "-lm", "-lpthread"] + spec.get("ld", []))
            self.bins[(h, cfg)] = exe
        run_cmds(comp)
        run_cmds(link)


# --------------------------------------------------------------------------
# running
# --------------------------------------------------------------------------
RING, RSZ = 64, 152


def read_status(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return None
    if len(b) < 40:
        return None
    magic, idx, seed, ops, pos = struct.unpack_from("<5Q", b, 0)
    if magic != 0x686b737461747573:
        return None
    ring = []
    n = min(pos, RING)
    for i in range(pos - n, pos):
        t = b[40 + (i % RING) * RSZ: 40 + (i % RING + 1) * RSZ]
        if not t:
            continue
        if t[0] == 1:
            name = t[1:112].split(b"\0")[0].decode("latin1")
            v = struct.unpack_from("<4q", t, 112)
            ring.append("%s(%d,%d,%d,%d)" % ((name,) + v))
        else:
            ring.append(t.split(b"\0")[0].decode("latin1"))
    return dict(idx=idx, seed=seed, ops=ops, ring=ring)


def crash_key(rc, out):
    """A stable signature of an abnormal end: what and where."""
    m = re.search(r"Assertion [`'](.*?)' failed", out)
    if m:
        f = re.search(r"(\w+): Assertion", out)
        return "crash.assert:%s" % re.sub(r"\s+", " ", m.group(1))[:100]
    m = re.search(r"runtime error: (.*)", out)
    if m:
        msg = re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))
        return "crash.ub:%s:%s" % (top_frame(out), msg[:80])
    m = re.search(r"SUMMARY: ThreadSanitizer: (.*?) \S+ in (\w+)", out)
    if m:
        return "crash.tsan:%s:%s" % m.groups()
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+)", out)
    if m:
        return "crash.san:%s:%s" % (m.group(2), top_frame(out))
    if rc < 0:
        return "crash.signal:%s" % signal.Signals(-rc).name
    return "crash.exit:%d" % rc


def top_frame(out):
    for m in re.finditer(r"^\s+#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", out, re.M):
        if "/small/" in m.group(2) and "/harness/" not in m.group(2) \
                and "libsanitizer" not in m.group(2):
            return m.group(1)
    m = re.search(r"^\s+#0 0x[0-9a-f]+ in (\S+)", out, re.M)
    if m:
        return m.group(1)
    m = re.search(r"^(\S+?):\d+:\d+: runtime error", out, re.M)
    return os.path.basename(m.group(1)) if m else "?"


STALL_CPU = 30      # seconds of processor time without any operation: a hang
STALL_WALL = 150    # the same, asleep
CASE_CPU = 150      # seconds of processor time for one case
STOPPED = "stopped"


class Stop:
    """Tells the processes of a check to end: decided, or out of time."""

    def __init__(self, deadline=None):
        self.found = False
        self.deadline = deadline

    def now(self):
        return self.found or (self.deadline is not None and
                              time.time() > self.deadline)


def progress(path):
    try:
        with open(path, "rb") as f:
            return f.read(40)
    except OSError:
        return None


def cpu_time(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            w = f.read().rsplit(")", 1)[1].split()
        return (int(w[11]) + int(w[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0


class Run:
    """One process over a range of cases."""
    stop = Stop()
    is_known = staticmethod(lambda v: False)

    def __init__(self, job, exe, seed, a, b, tmp, timeout):
        self.job, self.exe, self.seed = job, exe, seed
        self.a, self.b, self.tmp, self.timeout = a, b, tmp, timeout
        self.viols = []
        self.errors = []
        self.stats = None
        self.longest_step = self.longest_case = 0

    def cmd(self, a, b, base):
        c = []
        if CONFIGS[self.job["config"]].get("valgrind"):
            c += J.HARNESSES[self.job["harness"]].get("valgrind", VALGRIND)
        c += [self.exe, "--seed", str(self.seed), "--from", str(a),
             "--to", str(b), "--out", base + ".out", "--viol", base + ".viol",
             "--status", base + ".st"]
        for k, v in sorted(self.job.get("opts", {}).items()):
            c += ["-o", "%s=%s" % (k, v)]
        return c

    def once(self, a, b, timeout):
        base = os.path.join(self.tmp, "r%s" % hashlib.md5(
            ("%s %s %d %d %d %f" % (self.exe, self.job.get("opts"), self.seed,
                                    a, b, time.time())).encode()).hexdigest())
        t0 = time.time()
        with open(base + ".log", "wb") as log:
            p = subprocess.Popen(self.cmd(a, b, base), stdout=log, stderr=log,
                                 env=ENV, cwd=self.tmp, start_new_session=True)
            last, cpu, wall, case, ccpu = None, 0, t0, None, 0
            rc = None
            while True:
                try:
                    rc = p.wait(0.5)
                    break
                except subprocess.TimeoutExpired:
                    pass
                now, at = time.time(), progress(base + ".st")
                if at != last:
                    last, cpu, wall = at, cpu_time(p.pid), now
                if at and at[8:16] != case:
                    case, ccpu = at[8:16], cpu
                used = cpu_time(p.pid)
                self.longest_step = max(self.longest_step, used - cpu)
                self.longest_case = max(self.longest_case, used - ccpu)
                if self.stop.now():
                    rc = STOPPED
                elif now - wall <= STALL_WALL and \
                        used - cpu <= STALL_CPU and \
                        used - ccpu <= CASE_CPU and now - t0 <= timeout:
                    continue
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
        with open(base + ".log", "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(0)
            head = f.read(60000)
            if n > 120000:
                f.seek(n - 60000)
            out = head + f.read()
        out = out.decode("utf8", "replace")
        st = read_status(base + ".st")
        viols, errs = [], []
        if os.path.exists(base + ".viol"):
            for line in open(base + ".viol", errors="replace"):
                w = line.rstrip("\n").split("\t")
                if w[0] == "VIOL" and len(w) >= 6:
                    viols.append(dict(key=w[1], idx=int(w[2]), seed=w[3],
                                      op=int(w[4]), detail=w[5]))
                elif w[0] == "ERROR":
                    errs.append(w[-1])
        stats = parse_out(base + ".out")
        for e in (".log", ".viol", ".out", ".st"):
            try:
                os.unlink(base + e)
            except OSError:
                pass
        return rc, out, st, viols, errs, stats, time.time() - t0

    def go(self):
        if not self.stop.now():
            self.run()
        if any(not self.is_known(v) for v in self.viols):
            self.stop.found = True
        return self

    def run(self):
        rc, out, st, viols, errs, stats, _ = self.once(self.a, self.b,
                                                       self.timeout)
        if rc == STOPPED and not viols:
            return self
        self.stats = stats
        self.errors += errs
        for v in viols:
            v["ring"] = st["ring"] if st else []
            self.viols.append(v)
        if rc == 0 or rc == STOPPED or errs:
            return self
        if rc is not None and viols and rc in (10,):
            return self
        idx = st["idx"] if st else self.a
        if rc is None:
            # Re-run the case that was in progress, alone.
            rc2, out2, st2, v2, e2, _, _ = self.once(idx, idx + 1, 300)
            if rc2 == STOPPED:
                pass
            elif rc2 is None:
                self.viols.append(dict(
                    key="hang", idx=idx, seed=st["seed"] if st else 0,
                    op=st2["ops"] if st2 else 0,
                    detail="no progress, twice",
                    ring=(st2 or st or {}).get("ring", [])))
            elif rc2 == 0:
                self.errors.append("timeout after %d s in case %d, which "
                                   "ends when run alone" % (self.timeout, idx))
            else:
                for v in v2:
                    v["ring"] = st2["ring"] if st2 else []
                    self.viols.append(v)
                if not v2:
                    self.viols.append(self.crash(rc2, out2, st2, idx))
            return self
        if rc == 11:
            self.errors.append("harness error: " + out[-500:])
            return self
        if rc == -signal.SIGKILL:
            self.errors.append("killed (out of memory?)")
            return self
        self.viols.append(self.crash(rc, out, st, idx))
        return self

    def crash(self, rc, out, st, idx):
        return dict(key=crash_key(rc, out), idx=idx,
                    seed=st["seed"] if st else 0, op=st["ops"] if st else 0,
                    detail="abnormal end, status %s: %s" % (
                        rc, " ".join(out[:1500].split())[:600]),
                    log=out[:8000], ring=st["ring"] if st else [],
                    from_idx=self.a)


def parse_out(path):
    st = dict(cases=0, nontrivial=0, ops=0, ev={}, sigs=set(), samples=[])
    try:
        f = open(path, errors="replace")
    except OSError:
        return st
    with f:
        for line in f:
            if line.startswith("s "):
                st["sigs"].add(int(line[2:], 16))
            elif line.startswith("ev "):
                n, v = line[3:].rsplit(" ", 1)
                st["ev"][n] = st["ev"].get(n, 0) + int(v)
            elif line.startswith("sample "):
                st["samples"].append(line[7:].strip())
            else:
                k, v = line.split()
                st[k] = int(v)
    return st


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p))["findings"]:
            if e.get("status") == "known":
                known.append(e)
    return known


def match_known(known, prop, job, v):
    for e in known:
        if e["property"] != prop:
            continue
        if e.get("harness") and e["harness"] != job["harness"]:
            continue
        if e.get("config") and job["config"] not in e["config"]:
            continue
        if re.fullmatch(e["key"], v["key"]) and \
                re.search(e.get("detail", ""), v.get("detail", "")):
            return e
    return None


def set_limits():
    # A runaway allocation must not take the sandbox down.
    pass


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    t0 = time.time()
    spec = J.PROPS[prop]
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=prop + ".", dir=os.path.join(VERIF, "build"))
    try:
        return check_in(prop, spec, tier, seed, scale, t0, tmp)
    except HarnessError as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_in(prop, spec, tier, seed, scale, t0, tmp):
    jl = [j for j in spec["jobs"] if not (j.get("tier") and j["tier"] != tier)]
    b = Builder(os.path.join(tmp, "b"))
    b.build({(j["harness"], j["config"]) for j in jl})
    build_s = time.time() - t0
    runs = []
    known = load_known()
    # A quick check must answer in time, also on a slow machine.
    stop = Stop(t0 + 660 if tier == "quick" else None)
    for ji, j in enumerate(jl):
        n = j["cases"] * spec.get("factor", 1) if tier == "quick" else j.get(
            "thorough", j["cases"] * spec.get("thorough_factor", 20))
        n = max(1, int(n * scale))
        chunks = min(n, j.get("chunks", NPROC) if tier == "quick"
                     else 4 * j.get("chunks", NPROC))
        timeout = j.get("timeout", 1200 if tier == "quick" else 14400)
        s = hk_seed(seed, prop, j)
        for k in range(chunks):
            a, e = n * k // chunks, n * (k + 1) // chunks
            r = Run(j, b.bins[(j["harness"], j["config"])], s, a, e, tmp,
                    timeout)
            r.jobidx = ji
            r.stop = stop
            r.is_known = lambda v, j=j: bool(match_known(known, prop, j, v))
            runs.append(r)
    # Longest first would need measurements; interleave the jobs instead.
    runs.sort(key=lambda r: (-r.job.get("weight", 1), r.a))
    workers = min(NPROC, spec.get("parallel", NPROC))
    with cf.ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(r.go) for r in runs]
        for f in futs:
            f.result()
    viols, errors, knowns = [], [], {}
    ev, sigs, samples = {}, set(), []
    cases = nontriv = ops = 0
    per_job = {}
    for r in runs:
        st = r.stats or dict(cases=0, nontrivial=0, ops=0, ev={}, sigs=set(),
                             samples=[])
        cases += st["cases"]
        nontriv += st["nontrivial"]
        ops += st["ops"]
        key = "%s/%s%s" % (r.job["harness"], r.job["config"], "".join(
            " %s=%s" % kv for kv in sorted(r.job.get("opts", {}).items())))
        pj = per_job.setdefault(key, dict(cases=0, operations=0))
        pj["cases"] += st["cases"]
        pj["operations"] += st["ops"]
        for k, v in st["ev"].items():
            ev[k] = ev.get(k, 0) + v
        sigs |= {hash((r.jobidx, s)) for s in st["sigs"]}
        if st["samples"] and len(samples) < 4 and \
                not any(s.startswith(key) for s in samples):
            samples.append("%s case from %d: %s" % (key, r.a,
                                                    st["samples"][0][:1500]))
        errors += r.errors
        for v in r.viols:
            e = match_known(known, prop, r.job, v)
            if e:
                knowns[e["id"]] = e
            else:
                viols.append((r, v))
    rc = 0
    replay = None
    if viols:
        r, v = viols[0]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, "%s-%d.json" % (prop, os.getpid()))
        with open(replay, "w") as f:
            json.dump(dict(property=prop, harness=r.job["harness"],
                           config=r.job["config"],
                           opts=r.job.get("opts", {}), seed=r.seed,
                           case=v["idx"], first_case_of_process=r.a,
                           key=v["key"], detail=v["detail"], op=v["op"],
                           last_operations=v.get("ring", []),
                           log=v.get("log", "")), f, indent=1)
        seen = set()
        for r, v in viols:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            print("  %s [%s/%s case %d op %d] %s" % (
                v["key"], r.job["harness"], r.job["config"], v["idx"],
                v["op"], v["detail"][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        rc = 1
    for e in sorted(known, key=lambda e: e["id"]):
        if e["property"] == prop and e["id"] in knowns:
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    # The monitors must have seen what the property is about.
    missing = [n for n, least in spec.get("require", {}).items()
               if ev.get(n, 0) < least * (scale if scale < 1 else 1)]
    if rc == 0 and missing:
        errors.append("inconclusive: never or too rarely observed: %s" %
                      ", ".join("%s=%d" % (n, ev.get(n, 0)) for n in missing))
    evid = dict(
        property=prop, tier=tier, seed=seed, level=spec.get(
            "level", "exploration"),
        coverage=dict(
            evaluations=cases,
            distinct_nontrivial=len(sigs),
            rule=spec["rule"],
            samples=samples or ["(none)"],
            operations=ops,
            nontrivial_cases=nontriv,
            events=dict(sorted(ev.items())),
            per_job=per_job,
            processes=len(runs),
            longest_operation_cpu_s=round(max(r.longest_step for r in runs), 1),
            longest_case_cpu_s=round(max(r.longest_case for r in runs), 1),
            processes_not_run_to_the_end=sum(r.stats is None for r in runs),
            inconclusive=errors,
            build_s=round(build_s, 1)),
        assumptions=spec.get("assumptions", []) + J.ASSUMPTIONS,
        wall_s=round(time.time() - t0, 2),
        violations=len(viols))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    print("%s %s seed=%d: %d cases (%d distinct non-trivial), %d operations, "
          "%d violations, %.1f s" % (prop, tier, seed, cases, len(sigs), ops,
                                     len(viols), time.time() - t0))
    if rc == 0 and errors:
        for e in sorted(set(errors))[:5]:
            print("ERROR: %s" % e)
        return 2
    return rc


def hk_seed(seed, prop, j):
    h = hashlib.sha256(("%d|%s|%s|%s" % (
        seed, j["harness"], j["config"],
        sorted(j.get("opts", {}).items()))).encode()).digest()
    return struct.unpack("<Q", h[:8])[0] >> 1


def replay(path):
    d = json.load(open(path))
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="replay.", dir=os.path.join(VERIF, "build"))
    try:
        b = Builder(os.path.join(tmp, "b"))
        b.build({(d["harness"], d["config"])})
        job = dict(harness=d["harness"], config=d["config"], opts=d["opts"])
        exe = b.bins[(d["harness"], d["config"])]
        for a in (d["case"], d["first_case_of_process"]):
            r = Run(job, exe, d["seed"], a, d["case"] + 1, tmp, 600).go()
            if r.viols:
                for v in r.viols:
                    print("%s: %s" % (v["key"], v["detail"]))
                    for o in v.get("ring", []):
                        print("    " + o)
                    print(v.get("log", ""))
                print("VIOLATION property=%s replay=%s" % (d["property"], path))
                return 1
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "check":
        return check(sys.argv[2])
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "build":
        d = sys.argv[4] if len(sys.argv) > 4 else "/tmp/hkbuild"
        b = Builder(d)
        b.build({(sys.argv[2], sys.argv[3])})
        print(b.bins[(sys.argv[2], sys.argv[3])])
        return 0
    if sys.argv[1] == "list":
        for p, s in J.PROPS.items():
            for j in s["jobs"]:
                print(p, j)
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
