"""C02, C03, C04: programs and rules from Expr.tla / Sym.tla against the real active types."""
import random
from vp import *

HEX = float.hex


# ------------------------------------------------------------------ oracle
def dag(terms):
    """terms -> tokens with common subterms shared, indices of the roots"""
    toks, ix = [], {}

    def add(t):
        k = json.dumps(t)
        if k in ix:
            return ix[k]
        if t[0] == "q":
            s = "q %d %d" % (t[1], t[2])
        elif t[0] == "r":
            s = "r %d %d %s" % (t[1], len(t[2]), " ".join(map(str, t[2])))
        else:
            a = [add(x) for x in t[1:]]
            s = "%s %d %s" % (t[0], len(a), " ".join(map(str, a)))
        toks.append(s)
        ix[k] = len(toks) - 1
        return ix[k]
    roots = [add(t) for t in terms]
    return toks, roots


def acts(a):
    return "".join("A" if x else "p" for x in a) or "-"


def write_rules(check, module="Rules", consts=None, name="rules"):
    """Model-check the rule table and write it for the evaluator."""
    r = tlc(module, check.pid + name, consts or {"MaxOrder": 3, "Which": "TLA:Ops"},
            invariants=["RulesComplete", "PassiveUndifferentiated"], emit="Emit")
    check.add_tlc(name, r)
    if not r.payload:
        raise CheckError("no rules printed")
    lines = []

    def put(op, act, order, terms):
        t, roots = dag(terms)
        lines.append("R %s %s %s %d %d" % (op, act, order, len(t), len(roots)))
        lines.extend(t)
        lines.append(" ".join(map(str, roots)))
    seen = set()
    for l in r.payload:
        p = payload(l)
        a = acts(p["act"])
        if (p["op"], a, 0) not in seen and p["fun"][0] != "q" or p["order"] == 1:
            if (p["op"], a, 0) not in seen:
                seen.add((p["op"], a, 0))
                put(p["op"], a, "0", [p["fun"]])
                put(p["op"], a, "dom", p["dom"])
                put(p["op"], a, "dom3", p["dom3"])
        put(p["op"], a, str(p["order"]), [p["term"]])
        if p.get("alt"):
            put(p["op"], a, "alt", p["alt"])
    fn = os.path.join(check.dir, name + ".txt")
    with open(fn, "w") as f:
        f.write("\n".join(lines) + "\n")
    check.detail.setdefault("rules", 0)
    check.detail["rules"] += len(r.payload)
    return fn


def build_oracle():
    src = HARNESS + "/oracle.cpp"
    os.makedirs(BUILD + "/bin", exist_ok=True)
    out = BUILD + "/bin/oracle_" + hashlib.sha256(_src(src)).hexdigest()[:16]
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = run("g++ -O2 -std=gnu++17 -w %s -o %s -lquadmath" % (src, tmp), shell=True, timeout=600)
        if r.returncode:
            raise CheckError("oracle does not compile: " + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


def _src(p):
    with open(p, "rb") as f:
        return f.read()


# ------------------------------------------------------------------ programs
def program_line(p, order, npts, deep, base):
    """program in single-assignment form for the evaluator; node numbers become 0-based"""
    toks = ["P", str(p["id"]), str(p["ni"]), str(order), str(npts), str(int(deep)), str(base), str(len(p["nodes"])),
            str(len(p["env"])), str(len(p.get("forced", [])))]
    for n in p["nodes"]:
        if n["op"] == "in":
            toks.append("in %d" % (n["k"] - 1))
        elif n["op"] == "par":
            toks.append("par %s" % {"one": "o"}.get(n["kind"], n["kind"]))
        else:
            toks.append("%s %s %d %s" % (n["op"], acts(n["act"]), len(n["a"]), " ".join(str(a - 1) for a in n["a"])))
    toks.append(" ".join(str(e - 1) for e in p["env"]))
    for f in p.get("forced", []):
        toks.append(" ".join(HEX(float(v)) for v in f))
    return " ".join(toks)


INFIX = {"add": "+", "sub": "-", "mul": "*", "div": "/"}
LITK = {"d": "c[%d]", "f": "(float)c[%d]", "i": "(int)c[%d]", "b": "(B)c[%d]", "s": "S((B)c[%d])",
        "h": "(short)c[%d]", "k": "(signed char)c[%d]", "t": "(c[%d] != 0)", "U": "(unsigned)c[%d]", "L": "(long long)c[%d]",
        "W": "(unsigned long)c[%d]", "D": "(long double)c[%d]"}
KINDS = {"d", "f", "i", "b", "h", "k", "t", "U", "L", "W", "D"}


class Gen:
    def __init__(self, p):
        self.p = p
        self.par = {}
        for i, n in enumerate(p["nodes"]):
            if n["op"] == "par":
                self.par[i + 1] = len(self.par)

    def ex(self, t):
        f = t[0]
        if f == "v":
            return self.var(t[1])
        if f == "a":
            return "a%d" % t[1]
        if f == "p":
            return LITK[t[2]] % self.par[t[1]]
        a = [self.ex(x) for x in t[1:]]
        if f == "neg":
            return "(-%s)" % a[0]
        if f == "pos":
            return "(+%s)" % a[0]
        if f in INFIX:
            return "(%s %s %s)" % (a[0], INFIX[f], a[1])
        if f == "remquo":
            return "remquo(%s, %s, &iq)" % (a[0], a[1])
        if f == "frexp":
            return "frexp(%s, &ie)" % a[0]
        if f == "modf":
            return "modf(%s, &bp)" % a[0]
        if f == "modfx":
            return "modf(%s, &tp)" % a[0]
        if f in ("max", "min"):
            return "(%s)(%s, %s)" % (f, a[0], a[1]) if False else "%s(%s, %s)" % (f, a[0], a[1])
        name = {"smooth_abs1": "smooth_abs", "smooth_max2": "smooth_max", "smooth_min2": "smooth_min"}.get(f, f)
        return "%s(%s)" % (name, ", ".join(a))

    def var(self, v):
        return "x[%d]" % (v - 1) if v <= self.p["ni"] else "v%d" % v

    def stmt(self, s):
        e = s["e"]
        v = self.var(s["v"])
        if s["s"] == "decl":
            t = self.ex(e)
            return {"(": "T %s(%s);", "=": "T %s = %s;", "{": "T %s{%s};"}[s["o"]] % (v, t)
        if s["s"] == "asg":
            return "%s = %s;" % (v, self.ex(e))
        if s["s"] == "cmp":
            if e[0] == "p":
                return "Stepper<T, decltype(%s)>::%s(%s, %s);" % (self.ex(e), s["o"], v, self.ex(e))
            return "%s %s= %s;" % (v, INFIX[s["o"]], self.ex(e))
        if s["s"] == "auto":
            return "%s a%d = %s;" % (s["o"], s["v"], self.ex(e))
        if s["s"] == "inc":
            f = e[0]
            pre, post = "Incr<T>::pre%s(%s)" % (f, v), "Incr<T>::post%s(%s)" % (f, v)
            return {"pre": pre + ";", "post": post + ";", "declpre": "T v%d = %s;" % (e[1], pre),
                    "declpost": "T v%d = %s;" % (e[1], post)}[s["o"]]
        raise ValueError(s)

    def code(self):
        body = [self.stmt(s) for s in self.p["prog"]]
        outs = ["y[%d] = %s;" % (k, self.var(k + 1)) for k in range(len(self.p["env"]))]
        return ("template <class T> struct P%d { static void f(T* x, const double* c, T* y) {\n"
                "  typedef typename Nest<T>::base B; typedef typename xad::ExprTraits<T>::value_type S; int iq, ie; B bp; T tp; (void)iq;(void)ie;(void)bp;(void)tp;\n  %s\n  %s\n} };\n"
                "static Add r%d(make<P%d>(%d));\n") % (
                    self.p["id"], "\n  ".join(body), "\n  ".join(outs), self.p["id"], self.p["id"], self.p["id"])


def gen_tu(progs):
    os.makedirs(BUILD + "/gen", exist_ok=True)
    src = '#include "expr_run.hpp"\nnamespace {\n' + "".join(Gen(p).code() for p in progs) + "}\n"
    fn = BUILD + "/gen/expr_%s.cpp" % hashlib.sha256(src.encode()).hexdigest()[:16]
    if not os.path.exists(fn):
        tmp = fn + ".tmp%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write(src)
        os.rename(tmp, fn)
    return fn


EXPR_CFG = {1: "expr_asan", 8: "expr_asan", 2: "expr_plain", 4: "expr_plain"}
TNAMES = {1: "AReal/FReal<double>", 8: "AReal/FReal<float>", 2: "second-order nestings", 4: "third-order nestings"}


class Lang:
    """a program specification and how its programs become code"""
    module, flag, invariants = "Expr", "", ["TypeInv", "Captures"]
    gen_tu = staticmethod(gen_tu)
    code = staticmethod(lambda p: Gen(p).code())


def link_expr(types, progs, per_tu, lang=Lang):
    """Compile programs for a group of types and link them."""
    cfg = EXPR_CFG[types]
    tus = [lang.gen_tu(progs[i:i + per_tu]) for i in range(0, len(progs), per_tu)]
    extra = "-DXTYPES=%d%s" % (types, lang.flag)
    jobs = [(HARNESS + "/expr_driver.cpp", extra), (REPO + "/src/Tape.cpp", "")] + [(t, extra) for t in tus]
    with ThreadPoolExecutor(CPUS) as ex:
        objs = list(ex.map(lambda j: compile_obj(j[0], cfg, j[1]), jobs))
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16]
    out = BUILD + "/bin/expr_%d_%s" % (types, key)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = run("clang++ %s -o %s %s -pthread" % (CONFIGS[cfg][1], tmp, " ".join(objs)), shell=True, timeout=300)
        if r.returncode:
            raise CheckError("link failed: " + r.stderr[-3000:])
        os.rename(tmp, out)
    return out


def collect(check, runs, lang=Lang):
    """Programs from TLC; each run: (name, consts, number of random programs or None)"""
    progs = []
    for name, consts, num, depth in runs:
        kw = dict(simulate=max(20, num // CPUS * 2), depth=depth) if num else {}
        r = tlc(lang.module, check.pid + name, consts, invariants=lang.invariants, emit="Emit", **kw)
        check.add_tlc(name, r)
        got, seen = [], set()
        for l in r.payload:
            if l in seen:
                continue
            seen.add(l)
            got.append(payload(l))
        got = sorted(got, key=lambda p: json.dumps(p, sort_keys=True))
        if num:
            random.Random(SEED).shuffle(got)
            got = got[:num]
        if not got:
            raise CheckError("no programs from " + name)
        for p in got:
            p["src"] = name
            p["deep"] = bool(num)
        progs += got
    for i, p in enumerate(progs):
        p["id"] = i
    return progs


def forced(p, pts):
    """operand values -> inputs and parameters of a single-operation program"""
    out = []
    for o in pts:
        v = [n / d for n, d in o]
        x, par = [1.0] * p["ni"], []
        for k, kd in enumerate(p["tag"][1:]):
            if kd == "l":
                x[k] = v[k]
            elif kd == "e":
                x[k] = -v[k]
            else:
                par.append(v[k])
        out.append(x + par)
    return out


def points(check, rules, progs, order, npts, base, tag):
    """Expected values at sampled points for programs; returns file and number of points"""
    orc = build_oracle()
    pf = os.path.join(check.dir, "progs_%s.txt" % tag.replace(" ", "_"))
    with open(pf, "w") as f:
        for p in progs:
            f.write(program_line(p, order, npts, p["deep"], base) + "\n")
            if p.get("special"):
                f.write(program_line(dict(p, forced=forced(p, p["special"])), order, npts, True, base) + "\n")
            for deep, fs in p.get("grid", []):     # inputs and parameters given directly
                f.write(program_line(dict(p, forced=fs), order, npts, deep, base) + "\n")
            kinks = p.get("kinks")
            if kinks and not (order > 1 and p["tag"][0].startswith("smooth")):
                f.write(program_line(dict(p, forced=forced(p, kinks)), order, npts, False, base) + "\n")

    def one(k):
        o = os.path.join(check.dir, "pts_%s.%d" % (tag.replace(" ", "_"), k))
        # selftest: the rules are also compared with central differences of the next lower order
        r = run([orc, rules, pf, o, str(SEED), str(k), str(CPUS), "selftest"], timeout=800)
        if r.returncode != 0:
            raise CheckError("oracle failed: " + (r.stdout + r.stderr)[-1500:])
        m = re.search(r"progs (\d+) points (\d+) dead (\d+)", r.stdout)
        return o, int(m.group(2)), [int(x) for x in re.findall(r"^dead (\d+)$", r.stdout, flags=re.M)]
    with ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(one, range(CPUS)))
    out = os.path.join(check.dir, "pts_%s.bin" % tag.replace(" ", "_"))
    with open(out, "wb") as f:
        for o, n, d in res:
            f.write(_src(o))
            os.remove(o)
    dead = sum((d for o, n, d in res), [])
    return out, sum(n for o, n, d in res), dead


def compare(check, binary, pts, progs, types, n, lang=Lang):
    byid = {p["id"]: p for p in progs}
    for rc, out, err, idx in run_sharded(binary, pts):
        mm = re.findall(r"^MISMATCH (.*)$", out, flags=re.M)
        m = re.search(r"compared (\d+)", out)
        if m:
            check.detail["comparisons"] = check.detail.get("comparisons", 0) + int(m.group(1))
        if rc == 0:
            continue
        for l in mm[:3]:
            d = json.loads(l)
            p = byid[d["prog"]]
            check.violation("%s: partial %s of output %d is %s, expected %s (tolerance %s) at x=%s par=%s\n%s" % (
                d["type"], d["partial"], d["out"], d["got"], d["want"], d["tol"],
                [float.fromhex(v) for v in d["x"]], [float.fromhex(v) for v in d["par"]], lang.code(p)[:1200]),
                {"program": p, "mismatch": d, "code": lang.code(p)})
        if not mm:
            if rc == -999:
                raise CheckError("driver timed out")
            p = byid.get(idx)
            check.violation("driver for %s failed (rc %s) in program %s: %s" % (TNAMES[types], rc, idx, err[:1500]),
                            {"program": p, "code": lang.code(p) if p else None, "stderr": err[:4000]})
        if len(check.violations) >= 5:
            return
    check.cov["traces_validated_against_impl"] += n


def try_compile(check, types, progs, per_tu, lang=Lang):
    try:
        return link_expr(types, progs, per_tu, lang)
    except CheckError as e:
        if "compile failed" not in str(e):
            raise
        # the library compiles but an expression of its public interface does not
        t = run("echo '#include <XAD/XAD.hpp>' | clang++ -std=c++11 -w -I%s -I%s/src -fsyntax-only -x c++ -" % (
            config_dir(False), REPO), shell=True, timeout=300)
        if t.returncode == 0:
            raise Violation("programs over the public interface do not compile: " + str(e)[-1800:], str(e)[:3000])
        raise


def sim_consts(**k):
    c = dict(NI=3, MaxStm=4, MaxNodes=14, MaxStack=3, MaxVars=6, Un="TLA:Unary", Bi="TLA:Binary", Tri="TLA:Ternary",
             LitKinds={"d", "f", "i", "b"}, Cover="",
             Weights=["leaf"] * 4 + ["lit", "un", "bi", "bi", "decl", "asg", "cmp", "auto", "inc", "end"])
    c.update(k)
    return c


TAME = 'TLA:{"sin", "cos", "exp", "tanh", "atan", "neg", "pos", "sqrt", "erf", "asinh", "cbrt", "abs", "log1p", "smooth_abs1"}'
TAMEB = 'TLA:Arith \\cup {"atan2", "hypot", "max", "min", "pow", "copysign"}'
EASYW = ["leaf"] * 5 + ["lit", "un", "bi", "bi", "bi", "decl", "asg", "cmp", "auto", "auto", "inc", "end"]


def run_group(check, rules, progs, types, order, npts, base, per_tu, tag, lang=Lang):
    pts, n, dead = points(check, rules, progs, order, npts, base, tag)
    check.detail.setdefault("points", {})[tag] = {"programs": len(progs), "points": n, "programs_without_point": len(dead)}
    use = [p for p in progs if p["id"] not in set(dead)]
    t = time.time()
    b = try_compile(check, types, use, per_tu, lang)
    t2 = time.time()
    compare(check, b, pts, progs, types, n, lang)
    log("%s: %d programs (%d without points), %d points, build %.1fs run %.1fs, violations %d" % (
        tag, len(progs), len(dead), n, t2 - t, time.time() - t2, len(check.violations)))
    os.remove(pts)


def run_c02():
    c = Check("C02")
    rules = write_rules(c)
    n = 2000 if THOROUGH else 400
    progs = collect(c, [("forms", sim_consts(Cover="forms", LitKinds=KINDS), 0, 0),
                        ("numbers", sim_consts(Cover="numbers", LitKinds=KINDS), 0, 0),
                        ("pairs", sim_consts(Cover="pairs"), 0, 0),
                        ("mixed", sim_consts(), n // 2, 120),
                        ("arith", sim_consts(Un=TAME, Bi=TAMEB, Weights=EASYW, MaxStm=6, MaxNodes=18), n, 160)])
    np = 40 if THOROUGH else 24
    for types, base, tag in ((1, 0, "double"), (8, 1, "float")):
        run_group(c, rules, progs, types, 1, np, base, 24, tag)
        if c.violations:
            break
    samples(c, progs)
    return c.finish()


def samples(c, progs, lang=Lang):
    step = max(1, len(progs) // 5)
    c.cov["samples"] = [lang.code(p)[:700] for p in progs[::step]][:5]
    c.cov["programs"] = len(progs)


def run_c03():
    c = Check("C03")
    rules = write_rules(c)
    progs = collect(c, [("ops", sim_consts(Cover="ops", NI=3), 0, 0)])
    np = 300 if THOROUGH else 60
    for types, base, tag in ((1, 0, "double"), (8, 1, "float")):
        run_group(c, rules, progs, types, 1, np, base, 40, tag)
        if c.violations:
            break
    samples(c, progs)
    return c.finish()


def run_c04():
    c = Check("C04")
    rules = write_rules(c)
    n = 1000 if THOROUGH else 240
    ops = collect(c, [("ops", sim_consts(Cover="ops", NI=3, LitKinds={"d", "i"}), 0, 0)])
    sims = collect(c, [("arith", sim_consts(NI=2, Un=TAME, Bi=TAMEB, Weights=EASYW, MaxStm=5, MaxNodes=14), n, 160)])
    for p in sims:
        p["id"] += len(ops)
    np = 60 if THOROUGH else 12
    run_group(c, rules, ops, 2, 2, np, 0, 20, "second-order operations")
    if not c.violations:
        run_group(c, rules, sims, 2, 2, 6, 0, 10, "second-order programs")
    if not c.violations:
        run_group(c, rules, ops, 4, 3, 12 if THOROUGH else 3, 0, 8, "third-order operations")
    if not c.violations:
        run_group(c, rules, sims if THOROUGH else sims[:64], 4, 3, 3, 0, 4, "third-order programs")
    samples(c, ops + sims)
    return c.finish()
