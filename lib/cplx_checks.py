"""C16, C17: programs over complex active variables from Cplx.tla."""
import random
from vp import *
import expr_checks as E

CT = {"i": "(int)c[%d]", "sh": "(short)c[%d]", "l": "(long)c[%d]", "ll": "(long long)c[%d]", "u": "(unsigned)c[%d]",
      "us": "(unsigned short)c[%d]", "ul": "(unsigned long)c[%d]", "ull": "(unsigned long long)c[%d]", "b": "(B)c[%d]"}
OPS = {"zadd": "+", "zsub": "-", "zmul": "*", "zdiv": "/", "add": "+", "sub": "-", "mul": "*", "div": "/", "zeq": "==", "zne": "!="}
PRE = {"zneg": "-", "zpos": "+", "neg": "-"}
FUN = {"zre": "std::real", "zim": "std::imag", "rre": "std::real", "rim": "std::imag", "zconj": "std::conj", "rconj": "std::conj",
       "zproj": "std::proj", "rproj": "std::proj", "znorm": "std::norm", "rnorm": "std::norm", "zabs": "std::abs",
       "zarg": "std::arg", "rarg": "std::arg", "zpolar": "std::polar", "zpolar1": "std::polar", "zpow": "std::pow",
       "zpown": "std::pow", "rpow": "std::pow", "zcplx1": "Z", "zcplx": "Z"}


class Gen:
    def __init__(self, p):
        self.p = p
        self.par = {}
        for i, n in enumerate(p["nodes"]):
            if n["op"] == "par":
                self.par[i + 1] = len(self.par)

    def ex(self, t):
        f = t[0]
        if f == "v":
            return "x[%d]" % (t[1] - 1) if t[1] <= self.p["nr"] else "v%d" % t[1]
        if f == "w":
            return "w[%d]" % (t[1] - 1) if t[1] <= self.p["nz"] else "w%d" % t[1]
        if f == "p":
            return CT[t[2]] % self.par[t[1]]
        if f == "pc":
            return "std::complex<B>((B)c[%d], (B)c[%d])" % (self.par[t[1]], self.par[t[2]])
        a = [self.ex(x) for x in t[1:]]
        if f in ("zre.", "zim."):
            return "%s.%s()" % (a[0], "real" if f == "zre." else "imag")
        if f in ("zeq", "zne"):
            return "T((%s %s %s) ? 1 : 0)" % (a[0], OPS[f], a[1])
        if f in OPS:
            return "(%s %s %s)" % (a[0], OPS[f], a[1])
        if f in PRE:
            return "(%s%s)" % (PRE[f], a[0])
        name = FUN.get(f) or ("std::" + f[1:] if f[0] == "z" else f)
        return "%s(%s)" % (name, ", ".join(a))

    def stmt(self, s):
        e, k = self.ex(s["e"]), s["s"]
        w = self.ex(["w", s["v"]])
        if k == "declz":
            return "Z %s(%s);" % (w, e) if s["o"] == "(" else "Z %s = %s;" % (w, e)
        if k == "declr":
            return "T v%d = %s;" % (s["v"], e)
        if k == "asgr":
            return "%s = %s;" % (self.ex(["v", s["v"]]), e)
        if k == "asgz":
            return "%s = %s;" % (w, e)
        if k == "cmpz":
            return "%s %s= %s;" % (w, OPS[s["o"]], e)
        part = "real" if k == "zsetre" else "imag"
        return {"fn": "%s.%s(%s);", "ref": "%s.%s() = %s;"}[s["o"]] % (w, part, e)

    def code(self, flat=True):
        p = self.p
        body = [self.stmt(s) for s in p["prog"]]
        outs = ["y[%d] = %s;" % (k, self.ex(["v", k + 1])) for k in range(p["wr"])]
        outs += ["u[%d] = %s;" % (k, self.ex(["w", k + 1])) for k in range(p["wz"])]
        return ("template <class T> struct P%d { typedef typename Nest<T>::base B; typedef std::complex<T> Z;\n"
                "static void g(T* x, Z* w, const double* c, T* y, Z* u) { (void)c;\n  %s\n  %s\n}\n"
                "static void f(T* x, const double* c, T* y) { Z w[%d], u[%d];\n"
                "  for (int k = 0; k < %d; ++k) w[k] = Z(x[%d + 2 * k], x[%d + 2 * k]);\n"
                "  g(x, w, c, y, u);\n  for (int k = 0; k < %d; ++k) { y[%d + 2 * k] = u[k].real(); y[%d + 2 * k] = u[k].imag(); }\n} };\n"
                "static Add r%d(native<P%d>(make<P%d>(%d), %d, %d, %d, %d));\n") % (
                    p["id"], "\n  ".join(body), "\n  ".join(outs), max(1, p["nz"]), max(1, p["wz"]),
                    p["nz"], p["nr"], p["nr"] + 1, p["wz"], p["wr"], p["wr"] + 1,
                    p["id"], p["id"], p["id"], p["id"], p["nr"], p["nz"], p["wr"], p["wz"])


def gen_tu(progs):
    os.makedirs(BUILD + "/gen", exist_ok=True)
    src = '#define CPLX\n#include "cplx_run.hpp"\nnamespace {\n' + "".join(Gen(p).code() for p in progs) + "}\n"
    fn = BUILD + "/gen/cplx_%s.cpp" % hashlib.sha256(src.encode()).hexdigest()[:16]
    if not os.path.exists(fn):
        tmp = fn + ".tmp%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write(src)
        os.rename(tmp, fn)
    return fn


class Lang(E.Lang):
    module, flag, invariants = "Cplx", " -DCPLX", ["TypeInv"]
    gen_tu = staticmethod(gen_tu)
    code = staticmethod(lambda p: Gen(p).code())


FUNS = 'TLA:CTrans'
ARITHUN = 'TLA:CUn \\ CTrans'
ARITHBIN = 'TLA:CBin \\ {"zpow", "zpown", "rpow", "zsetre", "zsetim"}'
ALLBIN = 'TLA:CBin \\ {"zsetre", "zsetim"}'


def consts(**k):
    c = dict(NR=2, NZ=2, MaxStm=5, MaxNodes=24, MaxStack=3, MaxVars=4, Un=ARITHUN, Bi=ARITHBIN, Cover="",
             Weights=["leafz", "leafz", "leafz", "leafr", "leafr", "part", "lit", "un", "un", "unr", "bi", "bi", "bi", "drop",
                      "declz", "declr", "asgz", "asgr", "cmpz", "cmpz", "setz", "end"])
    c.update(k)
    return c


TRANS = {"zexp", "zlog", "zlog10", "zsqrt", "zsin", "zcos", "ztan", "zasin", "zacos", "zatan",
         "zsinh", "zcosh", "ztanh", "zasinh", "zacosh", "zatanh"}


def grids(progs, n):
    """points with simple operand values (on the axes, on the unit circle, equal operands, zero)"""
    vals = [-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0]
    rnd = random.Random(SEED)
    for p in progs:
        if not p["tag"]:
            continue
        np = sum(1 for x in p["nodes"] if x["op"] == "par")
        pk = [x["kind"] for x in p["nodes"] if x["op"] == "par"]
        un = len(p["tag"]) == 2
        fs = set()
        if un:          # every combination for the operand, which is the first variable
            wide = vals + ([2.0 ** -40, -2.0 ** -18, 1 + 2.0 ** -12, 30.0, -800.0, 1e5, 2.0 ** 40] if p["tag"][0] in TRANS else [])
            for a in wide:
                for b in wide:
                    fs.add((a, 0.25, a, b) + (0.5, 0.25) * (p["nz"] - 1))
        else:
            eq = p["tag"][0] in ("zeq", "zne")
            vv = [0.0, 1.0] if eq else vals
            for _ in range(n):
                q = [rnd.choice(vv) for _ in range(p["ni"])]
                q += [rnd.choice([0, 1, 2, 3] if k == "u" else [-2, -1, 0, 1, 2, 3] if k in "is" else vv) for k in pk]
                fs.add(tuple(float(v) for v in q))
            p["grid"] = [(0 if eq else 1, sorted(fs))]
        if un:
            p["grid"] = [(1, sorted(tuple(f) + (1.0,) * np for f in fs))]


def cplx_consts():
    return {"MaxOrder": 3, "Which": "TLA:Ops \\cup COps"}


def run_cplx(pid, runs, nested, npts, per_tu):
    c = Check(pid)
    rules = E.write_rules(c, consts=cplx_consts())
    progs = E.collect(c, runs, Lang)
    grids(progs, 60 if THOROUGH else 24)
    for types, base, tag in ((1, 0, "double"), (8, 1, "float")):
        E.run_group(c, rules, progs, types, 1, npts, base, per_tu, tag, Lang)
        if c.violations:
            break
    if not c.violations:
        sub = [p for p in progs if not any(x["op"] == "par" for x in p["nodes"])]
        # for nested types, comparisons with real operands and log10 are not provided
        sub = nested([p for p in sub if not any(x["op"] == "zlog10" for x in p["nodes"]) and not (p["tag"] and p["tag"][0] in ("zeq", "zne") and set(p["tag"][1:]) - {"z", "zt", "zp", "zs"})])
        for p in sub:
            p.pop("grid", None)
        E.run_group(c, rules, sub, 2, 2, 3, 0, 8, "second order", Lang)
    E.samples(c, progs, Lang)
    return c.finish()


def run_c16():
    n = 1200 if THOROUGH else 240
    return run_cplx("C16", [("un", consts(Cover="un"), 0, 0), ("bin", consts(Cover="bin"), 0, 0), ("forms", consts(Cover="forms"), 0, 0),
                            ("random", consts(), n, 200)],
                    lambda ps: [p for p in ps if p["tag"]][::3] if not THOROUGH else ps, 40 if THOROUGH else 12, 24)


def run_c17():
    n = 600 if THOROUGH else 120
    return run_cplx("C17", [("un", consts(Cover="un", Un=FUNS), 0, 0),
                            ("bin", consts(Cover="bin", Bi='TLA:{"zpow", "zpown", "rpow", "zpolar"}'), 0, 0),
                            ("random", consts(Un="TLA:CUn", Bi=ALLBIN, MaxStm=4, MaxNodes=18), n, 160)],
                    lambda ps: [p for p in ps if p["tag"]] if THOROUGH else [p for p in ps if p["tag"]][::2], 120 if THOROUGH else 40, 24)
