"""Checks built on spec/Tape.tla (C01, C05, C06, C07, C08, C10, C11, C13)."""
import os, json
from vp import *

INV = ["TypeOK", "GradientOK", "CellsOwnedOnce", "CountOK", "ActiveLive", "OwnersDisjoint",
       "PassiveUnregistered", "AdjointsClearedIfNotInit", "LiveCellsOnLiveTape"]
PROPS = ["RejectedChangesNothing", "ResetIsPrefix"]

BASE = dict(NH=3, NT=1, MaxC=6, MaxV=30, MaxD=1000000, Forms={"lin", "mul"}, Vals={3}, Coefs={2},
            Seeds={1}, Kinds={1}, NP=1, Prefix=[], Plan=[], Cats=set(), Ghost=True, MaxLen=4, Sim=False, SimDepth=0)


def plan(*steps):
    """each step: a string of categories, or a list of calls (one of which is made)"""
    return [dict(cats=set(s.split()), ops=set()) if isinstance(s, str) else
            dict(cats=set(), ops=TupSet(s)) for s in steps]


class TupSet(list):
    """a list of calls, written as a TLA+ set"""


def cats(**kw):
    return {(k, j) for k, n in kw.items() for j in range(n)}


def expand(o, hist):
    """add the tape of mark operations: driver needs to know the tape object"""
    return o


def flat(r):
    out = []
    for x in r:
        if isinstance(x, (list, tuple)):
            out += flat(x)
        elif x is True or x is False:
            out.append("1" if x else "0")
        else:
            out.append(str(x))
    return out


def behaviour_lines(steps, final=None):
    """steps: [{o, r, n, (s, d)}] -> driver lines"""
    L = ["B"]
    mk = {}    # mark -> tape object (follows tape moves)
    htape = {}
    for st in steps:
        o = list(st["o"])
        if o[0] == "mrk":
            mk[o[1]] = o[2]
        if o[0] in ("adt", "rst", "cda"):
            o = o + [mk[o[1]]] if o[0] != "adt" else [o[0], o[1], mk[o[1]]]
        if o[0] in ("tmv", "tma"):
            for k in list(mk):
                if mk[k] == o[2]:
                    mk[k] = o[1]
        L.append("S %d;%s;%s" % (1 if st.get("n") else 0, " ".join(flat(o)), " ".join(flat(st["r"]))))
        if "s" in st:
            L.append(obs_line(st["s"], st["d"]))
    if final:
        L.append(obs_line(*final))
    L.append("E")
    return L


def obs_line(s, d):
    f = [len(s["h"])] + flat(s["h"]) + [len(s["t"])] + flat(s["t"]) + [s["a"], s["k"]]
    return "O " + " ".join(str(x) for x in f) + ";" + " ".join(flat(d))


def _conv_ex(args):
    lines, prefix = args
    out, n, ops = [], 0, {}
    pre = [{"o": o, "r": ["ok"], "n": False} for o in prefix]
    for l in lines:
        j = payload(l)
        for st in j["x"][-1:]:
            k = st["o"][0] + ":" + str(st["r"][0])
            ops[k] = ops.get(k, 0) + 1
        out.append("\n".join(behaviour_lines(pre + j["x"], (j["s"], j["d"]))))
        n += 1
    return "\n".join(out) + "\n", n, ops


def _conv_sim(lines):
    out, n, ops = [], 0, {}
    for l in lines:
        j = payload(l)
        for st in j:
            k = st["o"][0] + ":" + str(st["r"][0])
            ops[k] = ops.get(k, 0) + 1
        out.append("\n".join(behaviour_lines(j)))
        n += 1
    return "\n".join(out) + "\n", n, ops


def _merge(rs, path):
    n, ops = 0, {}
    with open(path, "w") as f:
        for t, k, o in rs:
            if k:
                f.write(t)
            n += k
            for a, b in o.items():
                ops[a] = ops.get(a, 0) + b
    return n, ops


def write_exhaustive(res, path, prefix):
    from multiprocessing import Pool
    L = res.payload
    ch = [(L[i:i + 5000], prefix) for i in range(0, len(L), 5000)]
    with Pool(CPUS) as p:
        return _merge(p.map(_conv_ex, ch), path)


def write_sim(res, path):
    from multiprocessing import Pool
    L, seen = [], set()
    ls = sorted(len(l) for l in res.payload)
    n0 = int(ls[len(ls) // 10] * 0.9) if ls else 0
    for l in res.payload:
        # TLC prints every successor of the last but one state: keep one of each behaviour
        k = hash(l[:n0])
        if k in seen:
            continue
        seen.add(k)
        L.append(l)
    ch = [L[i:i + 200] for i in range(0, len(L), 200)]
    with Pool(CPUS) as p:
        return _merge(p.map(_conv_sim, ch), path)


def get_behaviour(path, idx):
    k = -1
    out = []
    for line in open(path):
        if line.startswith("B"):
            k += 1
        if k == idx:
            out.append(line.rstrip("\n"))
        if k > idx:
            break
    return out


def replay(chk, name, path, binaries, timeout=600, args=(), env=None, shards=None):
    """run the behaviours through the given driver binaries; records violations"""
    for label, b in binaries:
        t = time.time()
        rs = run_sharded(b, path, timeout=timeout, args=args, env=env, shards=shards)
        done = steps = 0
        for rc, out, err, idx in rs:
            m = re.search(r"DONE (\d+) (\d+)", out)
            if m:
                done += int(m.group(1))
                steps += int(m.group(2))
            bad = [l for l in out.splitlines() if l.startswith("MISMATCH")]
            for l in bad[:2]:
                i = int(l.split()[1])
                chk.violation("%s/%s: %s" % (name, label, l), {"driver": label, "behaviour": get_behaviour(path, i),
                                                            "message": l})
            if not bad and rc != 0:
                if idx < 0 and rc in (66,):   # leak report at exit
                    what = "memory error or leak: " + err[-1500:]
                elif idx < 0 and rc == -999:
                    raise CheckError("driver timed out")
                elif idx < 0:
                    raise CheckError("driver failed rc=%s: %s" % (rc, err[-1500:]))
                else:
                    key = [l for l in err.splitlines() if "ERROR" in l or "runtime error" in l or "terminate" in l
                           or "Assert" in l or "SUMMARY" in l]
                    what = "crash rc=%s: %s" % (rc, " | ".join(key)[:800] or err[-800:])
                chk.violation("%s/%s: %s" % (name, label, what),
                              {"driver": label, "behaviour": get_behaviour(path, idx) if idx >= 0 else None,
                               "message": what})
        log("replayed %s on %s: %d behaviours, %d steps in %.1fs" % (name, label, done, steps, time.time() - t))
        chk.cov["traces_validated_against_impl"] += done
        chk.detail.setdefault("replays", []).append({"behaviours": name, "driver": label, "count": done,
                                                     "calls": steps})
        if chk.violations:
            return


def drivers(spec):
    """spec: list of (label, cfg, REAL_T)"""
    out = []
    with ThreadPoolExecutor(CPUS) as ex:
        fs = [(l, ex.submit(build_binary, "tape_" + re.sub(r"\W", "_", r), HARNESS + "/tape_driver.cpp", c,
                            "-DREAL_T='%s'%s" % (r.split(" -D")[0], r[len(r.split(" -D")[0]):]))) for l, c, r in spec]
        for l, f in fs:
            out.append((l, f.result()))
    return out


PRE = [["tnw", 1, 1], ["new", 1, 3], ["new", 2, 2], ["reg", 1], ["reg", 2], ["nrc", 1]]
SIMBASE = dict(BASE, Forms={"lin", "mul", "poly", "neg", "rsub", "one"}, Vals={-2, 1, 3}, Coefs={-1, 2, 3},
               Seeds={1, 2, -3}, Kinds={1, 2, 3, 4, 5, 6, 7}, NH=5, NP=2, MaxC=50, Prefix=PRE, Sim=True,
               MaxLen=70, SimDepth=70)

# property -> list of (name, kind, constants, number of behaviours for simulation (per worker))
D = "del"


def ex(name, **kw):
    th = kw.pop("thorough", None)
    return dict(name=name, sim=0, consts=dict(BASE, **kw), thorough=th or {})


def sim(name, num, **kw):
    th = kw.pop("thorough", None)
    return dict(name=name, sim=num, consts=dict(SIMBASE, **kw), thorough=th or {})


SEED2 = ([["sed", 1, 1], ["sed", 2, 1]], [["inc", 2, 2]], [["adj", 1]])
SEED3 = ([["sed", 3, 1], ["sed", 1, 1], ["sed", 2, 1]], [["inc", 2, 2]], [["adj", 1]])

RUNS = {
    "C01": [
        ex("inplace", NH=2, Prefix=PRE, Plan=plan("asg cmp", "asg cmp", *SEED2), Forms={"lin", "mul"},
           thorough=dict(Plan=plan("asg cmp set cpa", "asg cmp", "asg cmp", *SEED2), Forms={"lin", "mul", "poly"})),
        ex("alias", NH=2, Prefix=PRE, Plan=plan("asg", "asg", "asg", *SEED2), Forms={"lin", "one"},
           thorough=dict(Plan=plan("asg", "asg", "asg", "asg", "asg", *SEED2))),
        ex("life", NH=3, Prefix=PRE, Plan=plan("ctr cpc new", "asg cmp mva swp", "asg cpa set del", *SEED3), Forms={"mul"},
           thorough=dict(Plan=plan("ctr cpc new", "asg cmp mva swp", "asg cpa set del ctr", "asg del ctr cmp", *SEED3))),
        ex("seq", NH=2, Prefix=PRE, Cats=cats(asg=1, sed=1, inc=1, adj=1, get=1, reg=1, **{D: 1}), Forms={"mul"}, MaxLen=3,
           thorough=dict(MaxLen=5)),
        sim("long", 250, Cats=cats(new=2, reg=2, rgo=1, asg=9, ctr=4, set=2, cpa=2, cpc=2, cmp=6, adc=1, pin=1, mvc=1,
                                   mva=2, swp=1, sed=4, inc=3, get=2, cld=1, adj=3, nrc=1, mrk=1, adt=1, **{D: 3}),
            NT=1, MaxLen=90, SimDepth=90, NH=6, thorough=4000),
    ],
    "C05": [
        ex("alloc", NH=4, Prefix=[["tnw", 1, 1]], Cats=cats(new=1, reg=1, cpc=1, mvc=1, **{D: 1}), MaxLen=6, Ghost=False,
           MaxC=8, thorough=dict(MaxLen=8)),
        ex("free", NH=4, Prefix=PRE + [["new", 3, 1], ["reg", 3], ["new", 4, 5], ["reg", 4], ["nrc", 1]], MaxC=9,
           Plan=plan("del mva", "del mva swp", "ctr cpc new", "ctr cpc reg", "asg del", [["sed", 1, 1], ["sed", 2, 1]],
                     [["sed", 3, 2], ["sed", 4, 2]], [["adj", 1]]), Forms={"one"}, Ghost=True),
        ex("swap", NH=3, Prefix=PRE + [["new", 3, 1], ["reg", 3]],
           Plan=plan("mva swp mvc", "ctr set del swp asg", "mva swp del ctr", *SEED3), Forms={"one"},
           thorough=dict(Plan=plan("mva swp mvc", "mva ctr set del swp asg", "mva swp del ctr", "mva swp del ctr", *SEED3))),
        sim("long", 200, Cats=cats(new=6, reg=8, ctr=4, cpc=3, cpa=2, mvc=2, mva=3, swp=2, asg=3, pin=1, ver=1, vin=1,
                                   vrt=1, sed=2, adj=2, nrc=1, mrk=1, rst=1, cld=1, **{D: 9}),
            NT=1, NH=12, MaxC=90, MaxLen=130, SimDepth=130, Ghost=False, thorough=3000),
    ],
    "C06": [
        ex("roll", NH=2, Prefix=PRE, Cats=cats(asg=1, sed=1, mrk=1, adt=1, rst=1, cda=1, cld=1, get=1), Forms={"one"},
           MaxLen=5, thorough=dict(MaxLen=6)),
        ex("loop", NH=3, NP=2, Prefix=PRE + [["ctr", 3, "mul", 1, 2, 0, 0], ["mrk", 1, 1]], Forms={"mul"},
           Plan=plan("asg cmp ctr", [["sed", 3, 1], ["sed", 1, 1]], [["adt", 1]], "get inc del",
                     [["rst", 1], ["cda", 1]], "asg rst adj", [["inc", 2, 2]], [["adj", 1], ["adt", 1]]),
           thorough=dict(Plan=plan("asg cmp ctr", "asg mrk", [["sed", 3, 1], ["sed", 1, 1]], "adt", "get inc del",
                     "rst cda", "asg rst adj adt", [["inc", 2, 2]], [["adj", 1], ["adt", 1]]))),
        ex("chk", NH=2, NP=1, Prefix=PRE, Kinds={2}, Forms={"mul"},
           Plan=plan("ckp", "mrk", "ckp asg", [["sed", 1, 1], ["sed", 2, 1]], "adt rst", "asg adt", [["sed", 1, -1], ["inc", 2, 2]],
                     [["adj", 1]]),
           thorough=dict(NP=2, Plan=plan("ckp", "mrk", "ckp asg", "mrk", "ckp asg", [["sed", 1, 1], ["sed", 2, 1]], "adt rst",
                                         "asg adt", [["sed", 1, -1], ["inc", 2, 2]], [["adj", 1]]))),
        sim("long", 250, Cats=cats(new=2, reg=2, asg=9, ctr=4, set=2, cpa=1, cmp=3, mva=1, sed=5, inc=2, get=4, tgt=2, ckp=2,
                                   cld=2, adj=2, nrc=1, mrk=5, adt=5, rst=3, cda=3, **{D: 2}), NP=4, NT=1,
            Ghost=False, thorough=4000),
    ],
    "C07": [
        ex("new", NH=2, NP=1, Prefix=PRE, Cats=cats(ctr=1, asg=1, sed=1, adj=1, nrc=1, cla=1, reg=1, get=1, **{D: 1}),
           Forms={"mul"}, MaxLen=4, thorough=dict(MaxLen=6)),
        ex("again", NH=2, NP=1, Prefix=PRE, Forms={"mul"},
           Plan=plan("asg del", "sed mrk", "adj asg", "nrc del", "cla nrc new", "new reg asg", "reg asg sed get", "adj sed",
                     [["adj", 1]])),
        ex("throw", NH=2, NP=1, Prefix=PRE, Forms={"mul"}, Kinds={2, 8, 9}, Coefs={2},
           Plan=plan("ckp asg", "ckp", [["sed", 1, 1], ["sed", 2, 2]], [["adj", 1]], "nrc del", "nrc asg ckp", "asg reg ckp new",
                     [["sed", 1, 1], ["sed", 2, 1]], [["adj", 1]]),
           thorough=dict(Kinds={2, 7, 8, 9}, Plan=plan("ckp asg", "ckp", [["sed", 1, 1], ["sed", 2, 2]], [["adj", 1]],
                     "nrc del", "nrc asg ckp", "asg reg ckp new", "asg ckp", [["sed", 1, 1], ["sed", 2, 1]], [["adj", 1]]))),
        sim("long", 250, Cats=cats(new=4, reg=4, asg=8, ctr=4, set=1, cmp=2, sed=5, inc=1, get=4, tgt=1, cld=1, adj=5,
                                   nrc=6, cla=4, mrk=2, adt=2, rst=2, cda=1, ckp=2, **{D: 6}), NT=1, Ghost=False, Kinds={1, 2, 3, 4, 5, 6, 7, 8, 9},
            thorough=4000),
    ],
    "C08": [
        ex("kinds", NH=3, Prefix=PRE, Kinds={1, 2, 3, 4, 5, 6, 7}, Coefs={2}, Forms={"mul"},
           Plan=plan("ckp", [["sed", 1, 1], ["sed", 3, -1], ["del", 2], ["asg", 1, "mul", 1, 2, 0, 0]], [["inc", 2, 2], ["inc", 3, 2]],
                     [["adj", 1]])),
        ex("two", NH=2, Prefix=PRE, Kinds={1, 2, 4}, Coefs={2}, Forms={"mul"},
           Plan=plan("ckp", "ckp asg", *SEED2),
           thorough=dict(Kinds={1, 2, 3, 4, 5, 6, 7}, Coefs={2, -1}, Plan=plan("ckp", "ckp asg", "asg ckp", *SEED2))),
        ex("mix", NH=3, Prefix=PRE, Kinds={2, 5}, Forms={"mul"},
           Plan=plan("ctr asg", "ckp", "del asg mrk", [["sed", 3, 1], ["sed", 1, 1], ["sed", 2, 1]], "adt adj", [["adj", 1]]),
           thorough=dict(Plan=plan("ctr asg", "mrk ckp", "ckp asg", "del asg mrk", [["sed", 3, 1], ["sed", 1, 1]],
                                   "adt adj", [["adj", 1]]))),
        sim("long", 250, Cats=cats(new=2, reg=2, asg=6, ctr=3, set=1, cmp=2, sed=4, inc=1, get=2, cld=1, adj=4, nrc=2,
                                   ckp=8, mrk=2, adt=2, rst=1, mva=1, **{D: 4}), NT=1, NH=6, thorough=4000),
    ],
    "C10": [
        ex("tmove", NH=1, NT=2, NP=1, Prefix=[["tnw", 1, 1], ["new", 1, 3], ["reg", 1]],
           Cats=cats(tmv=1, tma=1, tnw=1, tdl=1, act=1, dea=1, cbp=1, cbl=1, cbo=1, sed=1), MaxLen=4, Ghost=False,
           thorough=dict(MaxLen=5)),
        ex("trec", NH=2, NT=2, NP=1, Prefix=PRE + [["tnw", 2, 0]], Forms={"mul"}, Kinds={2},
           Plan=plan("asg ckp mrk cbp", "asg ckp sed", [["sed", 1, 1], ["sed", 2, 1]], "tmv tma", "asg sed cbp", "adj adt"),
           thorough=dict(Plan=plan("asg ckp mrk cbp", "asg ckp sed", [["sed", 1, 1], ["sed", 2, 1]], "tmv tma tdl",
                                   "tmv tma asg tnw", "asg sed cbp", "adj adt"))),
        sim("long", 250, Cats=cats(new=3, reg=3, asg=6, ctr=3, set=1, cmp=1, sed=4, inc=1, get=3, tgt=2, cld=1, adj=4,
                                   nrc=2, mrk=2, adt=2, rst=1, ckp=2, act=3, dea=1, tnw=3, tdl=2, tmv=4, tma=4, cbp=2,
                                   cbl=1, cbo=1, **{D: 4}), NT=3, Ghost=False, thorough=4000),
    ],
    "C11": [
        ex("reject", NH=2, NT=2, Prefix=[["tnw", 1, 1], ["new", 1, 3], ["new", 2, 2], ["reg", 1], ["nrc", 1]],
           Cats=cats(bad=1, cbl=1, cbo=1, cbp=1, act=1, dea=1, tnw=1, adj=1, sed=1, get=1, tgt=1, asg=1), Forms={"mul"},
           MaxLen=3, Ghost=False, thorough=dict(MaxLen=4)),
        ex("after", NH=2, NT=2, Prefix=PRE + [["mrk", 1, 1]], Forms={"mul"}, Ghost=True,
           Plan=plan("bad cbl cbo act tnw adj adt asg", "bad cbl cbo act tnw adj adt dea", "act bad asg adt", [["sed", 1, 1]],
                     [["inc", 2, 2]], "bad act cbo tnw get", [["adj", 1]])),
        sim("long", 250, Cats=cats(new=2, reg=3, asg=6, ctr=2, set=1, cmp=1, sed=3, inc=1, get=4, tgt=3, cld=2, adj=5,
                                   nrc=2, mrk=2, adt=3, rst=1, ckp=1, act=3, dea=2, daa=1, tnw=3, tdl=1, cbp=1,
                                   cbl=2, cbo=3, bad=8, **{D: 2}), NT=2, Ghost=False, thorough=4000),
    ],
    "C13": [
        ex("value", NH=3, Prefix=PRE, Plan=plan("cpa cpc mvc mva swp set new del", "cpa cpc mvc mva swp set del",
                                               "cpa cpc mvc mva swp set adc", *SEED3),
           thorough=dict(Plan=plan("cpa cpc mvc mva swp set new del", "cpa cpc mvc mva swp set del",
                                   "cpa cpc mvc mva swp set del", "cpa cpc mvc mva swp set adc", *SEED3))),
        ex("passive", NH=3, Prefix=[["tnw", 1, 1], ["new", 1, 3], ["new", 2, 2], ["reg", 1], ["nrc", 1]],
           Cats=cats(asg=1, ctr=1, cmp=1, pin=1, adc=1, set=1, get=1), Forms={"lin", "neg"}, MaxLen=2,
           thorough=dict(MaxLen=3)),
        ex("vec", NH=4, Prefix=PRE + [["new", 3, 1]], Plan=plan("vrt vrv vst ver vin", "vrt vrv vst ver vin", "asg cpa",
                                                               [["sed", 1, 1], ["sed", 2, 1]], [["sed", 3, 2], ["inc", 2, 2]], [["adj", 1]]),
           Forms={"one"}, MaxC=8),
        sim("long", 250, Cats=cats(new=4, reg=4, asg=6, ctr=4, set=3, cpa=4, cpc=4, cmp=4, adc=2, pin=2, mvc=3, mva=4,
                                   swp=3, vrt=2, vrv=2, vst=2, ver=2, vin=3, sed=4, inc=1, get=4, adj=4, nrc=1, **{D: 4}),
            NT=1, NH=7, thorough=4000),
    ],
}
DRIVERS_QUICK = [("default/asan/block8", "def_asan", "double"), ("reuse/asan/block7", "reuse_asan", "double"),
                 ("default/release", "def_rel", "double"), ("reuse/release/float", "reuse_rel", "float"),
                 ("default/asan/AReal<double>", "def_asan", "xad::AReal<double>"),
                 ("reuse/asan/FReal<double>", "reuse_asan", "xad::FReal<double>"),
                 ("reuse/asan/tangents", "reuse_asan", "xad::FReal<double> -DTANGENT_SEEDS")]
DRIVERS_THOROUGH = DRIVERS_QUICK + [("default/asan/float", "def_asan", "float"),
                                    ("reuse/asan/FReal<FReal<double>>", "reuse_asan", "xad::FReal<xad::FReal<double> >"),
                                    ("default/asan/FReal<AReal<float>>", "def_asan", "xad::FReal<xad::AReal<float> >"),
                                    ("reuse/asan/AReal<AReal<double>>", "reuse_asan", "xad::AReal<xad::AReal<double> >")]


def run_tape(pid):
    chk = Check(pid)
    chk.assumptions = ["variables are destroyed while their tape or no tape is active",
                       "values are integers small enough to be exact in float"]
    runs = RUNS[pid]
    dl = DRIVERS_THOROUGH if THOROUGH else DRIVERS_QUICK
    with ThreadPoolExecutor(2) as exr:
        fb = exr.submit(drivers, dl)
        files = []
        for r in runs:
            c = dict(r["consts"])
            name = pid + "_" + r["name"]
            path = os.path.join(chk.dir, name + ".txt")
            if r["sim"]:
                num = r["thorough"] if THOROUGH and r["thorough"] else r["sim"]
                res = tlc("Tape", name, c, INV, [], emit="Emit", simulate=num, depth=c["SimDepth"], timeout=3000)
                n, ops = write_sim(res, path)
            else:
                if THOROUGH:
                    c.update(r["thorough"])
                res = tlc("Tape", name, c, INV, PROPS, emit="Emit", view="view", timeout=3000)
                n, ops = write_exhaustive(res, path, c["Prefix"])
            chk.add_tlc(name, res)
            chk.detail.setdefault("calls_by_result", {})[name] = ops
            log("TLC %s: %d generated, %d distinct, %.1fs, %d behaviours" % (name, res.states, res.distinct, res.wall, n))
            if n == 0:
                raise CheckError("no behaviours from " + name)
            if len(chk.cov["samples"]) < 3:
                chk.cov["samples"].append({"config": name, "behaviour": get_behaviour(path, n // 2)[:40]})
            files.append((name, path))
            res.payload = None
        bins = fb.result()
    for name, what in known_findings(pid):
        rs = run_sharded(bins[0][1], os.path.join(VERIF, "known", name + ".txt"), shards=1, args=())
        if any(l.startswith("MISMATCH") for l in rs[0][1].splitlines()):
            chk.known(name, what)
        elif rs[0][0] != 0:
            chk.violation("known history %s fails in another way: %s" % (name, rs[0][2][-500:]), name)
    for name, path in files:
        # exhaustive behaviours are many: in the quick tier the higher-order drivers only get the long ones
        bs = bins if THOROUGH or name.endswith("_long") else [bins[0], bins[1], bins[3]]
        replay(chk, name, path, bs, timeout=3000)
        if chk.violations:
            break
    for name, path in files:
        os.remove(path)
    return chk.finish()
