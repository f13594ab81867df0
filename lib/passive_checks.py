"""C18: the calls of Passive.tla on active values of every kind of operand."""
from vp import *

TYPES = [("AReal<double>", "xad::AReal<double>"), ("FReal<double>", "xad::FReal<double>"), ("AReal<float>", "xad::AReal<float>"),
         ("FReal<float>", "xad::FReal<float>"), ("AReal<AReal<double>>", "xad::AReal<xad::AReal<double> >"),
         ("FReal<AReal<double>>", "xad::FReal<xad::AReal<double> >"), ("AReal<FReal<float>>", "xad::AReal<xad::FReal<float> >"),
         ("FReal<FReal<double>>", "xad::FReal<xad::FReal<double> >")]
MORE = [("AReal<AReal<AReal<double>>>", "xad::AReal<xad::AReal<xad::AReal<double> > >"), ("AReal<FReal<double>>", "xad::AReal<xad::FReal<double> >")]


def field(x):
    if isinstance(x, dict):
        return "%s %d %d" % (x["c"], x["s"], x["m"])
    return str(x)


def line(j):
    c, a = j["c"], j["a"]
    if c[0] in ("in", "win"):
        v = c[3] if isinstance(c[3], dict) else "free"
        return "\t".join([c[0], c[1], c[2], field(v), c[4], "read"])
    a = [str(x) for x in a]
    return "\t".join([field(x) for x in c] + ["free" if a == ["any"] else " ".join(a)])


def run_c18():
    chk = Check("C18")
    chk.assumptions = ["plain operands of other types are converted to the scalar type first",
                       "the sign of a NaN that results from an operation, and integers for values out of their range, are not judged"]
    src = HARNESS + "/passive_driver.cpp"
    ex = ThreadPoolExecutor(CPUS)
    bins = [(l, ex.submit(build_binary, "passive_" + re.sub(r"\W", "_", t), src, "expr_asan" if i % 2 == 0 else "def_rel",
                          "-DTYPE='%s'" % t, "-O0", "c++14")) for i, (l, t) in enumerate(TYPES + (MORE if THOROUGH else []))]
    some = {-20, -16, -8, -4, 1, 8, 12, 16}
    if THOROUGH:
        some |= {-3, 3, 20, 24, 800000}
    every = (set(range(-40, 41)) - {0}) | {72, -72, 1000, 3 * 2 ** 20, -2 ** 21 - 4, 2 ** 19, 262140, 262144, -262144, -262152, 1020, 1024, -1024, -1032, 2040, 2048}
    files = []
    for g in ("cmp", "un", "bin", "in"):
        r = tlc("Passive", "C18_" + g, dict(Group=g, Fins=every if g == "un" else some), ["Coherent"], emit="Emit")
        chk.add_tlc(g, r)
        ls = sorted(line(payload(l)) for l in r.payload)
        n = {}
        for l in ls:
            k = l.split("\t")[0]
            n[k] = n.get(k, 0) + 1
        chk.detail.setdefault("calls", {})[g] = n
        path = os.path.join(chk.dir, g + ".txt")
        open(path, "w").write("\n".join(ls) + "\n")
        chk.cov["samples"].append({"group": g, "call": ls[len(ls) // 3]})
        files.append((g, path, ls))
        log("TLC %s: %d calls, %.1fs" % (g, len(ls), r.wall))
    for label, f in bins:
        b = f.result()
        for g, path, ls in files:
            done = 0
            t = time.time()
            for rc, out, err, idx in run_sharded(b, path):
                m = re.search(r"DONE (\d+)", out)
                done += int(m.group(1)) if m else 0
                bad = [l for l in out.splitlines() if l.startswith("MISMATCH")]
                for l in bad[:2]:
                    chk.violation("%s: %s" % (label, l), {"type": label, "call": ls[int(l.split()[1])], "message": l})
                if not bad and rc != 0:
                    if idx < 0:
                        raise CheckError("driver failed rc=%s: %s" % (rc, err[-1500:]))
                    chk.violation("%s: crash rc=%s at %s: %s" % (label, rc, ls[idx], err[-800:]), {"type": label, "call": ls[idx]})
            chk.cov["traces_validated_against_impl"] += done
            log("%s %s: %d calls in %.1fs" % (label, g, done, time.time() - t))
        if chk.violations:
            break
    return chk.finish()
