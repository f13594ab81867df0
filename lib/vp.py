"""Shared machinery of all checks: build from /repo, run TLC, replay, report."""
import threading, hashlib, json, os, re, shutil, subprocess, sys, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CPUS = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself cannot give an answer."""


class Violation(Exception):
    def __init__(self, what, replay=None):
        Exception.__init__(self, what)
        self.what = what
        self.replay = replay


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


T0 = time.time()


# --------------------------------------------------------------------------
# build
# --------------------------------------------------------------------------
def _read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(REPO + "/src/**/*", recursive=True)):
        if os.path.isfile(p):
            h.update(p.encode())
            h.update(_read(p))
    return h.hexdigest()


_RH = None


def rh():
    global _RH
    if _RH is None:
        _RH = repo_hash()
    return _RH


def config_dir(reuse=False):
    """Generate Config.hpp / Version.hpp as cmake would, outside the tree."""
    d = os.path.join(BUILD, "inc_" + ("reuse" if reuse else "default"))
    os.makedirs(d + "/XAD", exist_ok=True)
    for f in ("Config.hpp", "Version.hpp"):
        s = open(REPO + "/src/XAD/%s.in" % f).read()
        on = {"XAD_ALLOW_INT_CONVERSION"} | ({"XAD_TAPE_REUSE_SLOTS"} if reuse else set())
        s = re.sub(r"^[ \t]*#[ \t]*cmakedefine[ \t]+(\w+)[^\n]*$",
                   lambda m: "#define " + m.group(1) if m.group(1) in on else "/* #undef %s */" % m.group(1),
                   s, flags=re.M)
        ver = {"XAD_VERSION_MAJOR": "1", "XAD_VERSION_MINOR": "6", "XAD_VERSION_PATCHNUM": "0",
               "XAD_VERSION_NUMERIC": "10600"}
        s = re.sub(r"@(\w+)@", lambda m: ver.get(m.group(1), "0"), s)
        out = os.path.join(d, "XAD", f)
        if not os.path.exists(out) or open(out).read() != s:
            with open(out, "w") as o:
                o.write(s)
    return d


SAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"
CONFIGS = {
    # name: (reuse, flags)
    "def_asan":  (False, SAN + " -DXAD_VERIF_CHUNK_SIZE=8"),
    "reuse_asan": (True, SAN + " -DXAD_VERIF_CHUNK_SIZE=7"),
    "def_rel":   (False, "-DNDEBUG"),
    "reuse_rel": (True, "-DNDEBUG"),
    "def_big":   (False, "-O2"),
    "reuse_big":   (True, "-O2 -DNDEBUG"),
    "chunk_asan": (False, SAN),
    "expr_asan":  (False, SAN + " -DXAD_VERIF_CHUNK_SIZE=64"),
    "expr_plain": (False, "-DXAD_VERIF_CHUNK_SIZE=64"),
    "def_tsan":  (False, "-fsanitize=thread -DXAD_VERIF_CHUNK_SIZE=64"),
    "reuse_tsan":  (True, "-fsanitize=thread -DXAD_VERIF_CHUNK_SIZE=64"),
}


for _n in (3, 4, 5, 6, 16, 32):
    CONFIGS["def_asan_b%d" % _n] = (False, SAN + " -DXAD_VERIF_CHUNK_SIZE=%d" % _n)
    CONFIGS["reuse_asan_b%d" % _n] = (True, SAN + " -DXAD_VERIF_CHUNK_SIZE=%d" % _n)


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                          universal_newlines=True, **kw)


def compile_obj(src, cfg, extra="", opt="-O0", std="c++11", cxx="clang++"):
    if cfg.endswith("_big"):
        opt = "-O2"
    reuse, flags = CONFIGS[cfg]
    inc = config_dir(reuse)
    key = hashlib.sha256(("|".join([rh(), cfg, flags, extra, opt, std, cxx, src])).encode() + _read(src))
    for f in sorted(glob.glob(HARNESS + "/*.hpp")):
        key.update(_read(f))
    os.makedirs(BUILD + "/obj", exist_ok=True)
    out = BUILD + "/obj/%s_%s_%s.o" % (os.path.basename(src).split(".")[0], cfg, key.hexdigest()[:16])
    with _LOCK:
        lk = _LOCKS.setdefault(out, threading.Lock())
    with lk:
        return _compile(src, out, cxx, std, opt, flags, extra, inc)


_LOCK = threading.Lock()
_LOCKS = {}


def _compile(src, out, cxx, std, opt, flags, extra, inc):
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d" % os.getpid()
    cmd = "%s -std=%s %s -g1 -w %s %s -I%s -I%s/src -I%s -c %s -o %s" % (
        cxx, std, opt, flags, extra, inc, REPO, HARNESS, src, tmp)
    r = run(cmd, timeout=850, shell=True)
    if r.returncode != 0:
        # the library itself compiles, but calls of its public interface do not
        t = run("echo '#include <XAD/XAD.hpp>' | %s -std=%s %s -w -I%s -I%s/src -fsyntax-only -x c++ -" % (
            cxx, std, flags, inc, REPO), timeout=300, shell=True)
        msg = "\n".join(l[:300] for l in r.stderr.splitlines() if "error" in l)[:2000]
        if t.returncode == 0 and src.startswith(HARNESS):
            raise Violation("calls of the public interface do not compile: " + msg, cmd[:3000])
        raise CheckError("compile failed: %s\n%s" % (cmd[:3000], msg))
    os.rename(tmp, out)
    return out


def tape_opt(cfg):
    return "-O2" if cfg.endswith("_big") else "-O0"


def build_binary(name, src, cfg, extra="", opt="-O0", std="c++11", cxx="clang++", link_tape=True):
    """Link a harness with Tape.cpp; objects are built in parallel and cached by content."""
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(compile_obj, REPO + "/src/Tape.cpp", cfg, "", tape_opt(cfg), std, cxx)
        b = ex.submit(compile_obj, src, cfg, extra, opt, std, cxx)
        a, b = a.result() if link_tape else "", b.result()
    os.makedirs(BUILD + "/bin", exist_ok=True)
    key = hashlib.sha256((a + b).encode()).hexdigest()[:16]
    out = BUILD + "/bin/%s_%s_%s" % (name, cfg, key)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = run("%s %s -o %s %s %s -pthread" % (cxx, CONFIGS[cfg][1], tmp, a, b), shell=True, timeout=300)
        if r.returncode != 0:
            raise CheckError("link failed: " + r.stderr[-3000:])
        os.rename(tmp, out)
    return out


def prune_build(limit_gb=4):
    """Keep the content-addressed cache from growing without bound."""
    fs = [p for p in glob.glob(BUILD + "/obj/*") + glob.glob(BUILD + "/bin/*") + glob.glob(BUILD + "/gen/*")
          if os.path.isfile(p)]
    fs.sort(key=os.path.getmtime)
    tot = sum(os.path.getsize(p) for p in fs)
    now = time.time()
    for p in fs:
        if tot < limit_gb * 1e9:
            break
        if now - os.path.getmtime(p) < 1800:
            continue
        tot -= os.path.getsize(p)
        try:
            os.remove(p)
        except OSError:
            pass


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
def tla(v):
    """python value -> TLA+ expression"""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if type(v).__name__ == "TupSet":
        return "{" + ", ".join(tla(x) for x in v) + "}"
    if isinstance(v, tuple) or isinstance(v, list):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


class TLCResult:
    pass


def tlc(module, name, consts, invariants=(), properties=(), emit=None, view=None, constraint=None,
        simulate=None, depth=None, seed=None, workers=None, timeout=600, xmx="6g", defs="", spec="Spec",
        post=None, extra_args=""):
    """Run TLC on spec/<module>.tla with constants given as python values.
    Returns statistics and the list of printed '@@' payloads (unparsed)."""
    d = os.path.join(BUILD, "tlc", "%s.%d" % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in glob.glob(SPEC + "/*.tla"):
        shutil.copy(f, d)
    mc = "MC_" + re.sub(r"\W", "_", name)
    lines = ["---- MODULE %s ----" % mc, "EXTENDS " + module, ""]
    cfg = []
    for k, v in consts.items():
        lines.append("c_%s == %s" % (k, v[4:] if isinstance(v, str) and v.startswith("TLA:") else tla(v)))
        cfg.append("CONSTANT %s <- c_%s" % (k, k))
    lines += [defs, "===="]
    cfg.append("SPECIFICATION " + spec)
    for i in invariants:
        cfg.append("INVARIANT " + i)
    for p in properties:
        cfg.append("PROPERTY " + p)
    if emit:
        cfg.append("ACTION_CONSTRAINT " + emit)
    if view:
        cfg.append("VIEW " + view)
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    if post:
        cfg.append("POSTCONDITION " + post)
    cfg.append("CHECK_DEADLOCK FALSE")
    open(os.path.join(d, mc + ".tla"), "w").write("\n".join(lines) + "\n")
    open(os.path.join(d, mc + ".cfg"), "w").write("\n".join(cfg) + "\n")
    cmd = ["java", "-Djava.io.tmpdir=" + d, "-Xmx" + xmx, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4",
           "-cp", JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers or CPUS), "-metadir", d + "/meta", "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed if seed is not None else SEED)]
    cmd += extra_args.split() + ["-config", mc + ".cfg", mc + ".tla"]
    t = time.time()
    outp = os.path.join(d, "out.txt")
    with open(outp, "w") as o:
        try:
            p = subprocess.run(cmd, cwd=d, stdout=o, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = None
    res = TLCResult()
    res.rc, res.wall, res.out = rc, time.time() - t, outp
    res.payload = []
    res.states = res.distinct = 0
    res.traces = 0
    tail = []
    with open(outp, errors="replace") as f:
        for line in f:
            if line.startswith('"@@'):
                res.payload.append(line)
                continue
            tail.append(line)
            if len(tail) > 400:
                tail.pop(0)
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                res.states, res.distinct = int(m.group(1)), int(m.group(2))
            m = re.search(r"(\d+) states checked", line) or re.search(r"number of states generated: (\d+)", line)
            if m:
                res.states = max(res.states, int(m.group(1)))
            m = re.search(r"(\d+) traces generated", line)
            if m:
                res.traces = int(m.group(1))
    res.tail = "".join(tail)
    if rc == 0 and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(d, ignore_errors=True)
    if rc is None and not simulate:
        raise CheckError("TLC timed out on " + name)
    if rc not in (0, None):
        raise CheckError("TLC failed on %s (rc=%s)\n%s" % (name, rc, res.tail[-6000:]))
    return res


def payload(line):
    """a printed TLA+ string holding JSON -> python"""
    s = line.rstrip("\n")
    assert s.startswith('"@@') and s.endswith('"'), s[:200]
    return json.loads(s[3:-1].replace('\\"', '"').replace("\\\\", "\\"))


# --------------------------------------------------------------------------
# drivers
# --------------------------------------------------------------------------
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=66:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=1:quarantine_size_mb=32",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=67", TSAN_OPTIONS="exitcode=68:halt_on_error=1")


def run_sharded(binary, infile, shards=None, timeout=600, args=(), env=None):
    """Run driver on shards of a behaviour file.  Returns (ok, message, index)."""
    shards = shards or CPUS

    def one(k):
        os.makedirs(BUILD + "/st", exist_ok=True)
        st = BUILD + "/st/%s.%s.%d.%d" % (os.path.basename(infile), os.path.basename(binary), os.getpid(), k)
        with open(st, "w") as f:
            f.write("%-20d" % -1)
        try:
            p = subprocess.run([binary, infile, str(k), str(shards), st] + list(args), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, universal_newlines=True, timeout=timeout, env=dict(ENV, **(env or {})),
                               errors="replace")
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, out, err = -999, "", "timeout"
        idx = -1
        try:
            idx = int(open(st).read().strip() or -1)
            os.remove(st)
        except (OSError, ValueError):
            pass
        return rc, out, err, idx
    with ThreadPoolExecutor(shards) as ex:
        return list(ex.map(one, range(shards)))


# --------------------------------------------------------------------------
# reporting
# --------------------------------------------------------------------------
def known_findings(pid):
    out = []
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"finding: property=(\S+) name=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3).strip()))
    return out


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.dir = os.path.join(BUILD, "run", "%s.%d" % (pid, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.detail = {}

    def add_tlc(self, name, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states
        self.detail.setdefault("tlc", []).append(
            {"config": name, "states_generated": r.states, "distinct": r.distinct, "wall_s": round(r.wall, 1),
             "behaviours_printed": len(r.payload)})

    def violation(self, what, replay_obj=None):
        p = os.path.join(VERIF, "evidence", "replay_%s_%d.json" % (self.pid, len(self.violations) + 1))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": what, "replay": replay_obj}, f, indent=1)
        self.violations.append((what, p))

    def known(self, name, what):
        print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, name, what), flush=True)
        self.detail.setdefault("known_findings", []).append(name)

    def finish(self):
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir, ignore_errors=True)
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": dict(self.cov, **self.detail), "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.pid, "w") as f:
            json.dump(ev, f, indent=1)
        for what, p in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("  " + str(what)[:1500])
        log("done", self.pid, "violations", len(self.violations), "coverage",
            {k: v for k, v in self.cov.items() if k != "samples"})
        prune_build()
        return 1 if self.violations else 0
