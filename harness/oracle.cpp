// Evaluates the terms printed by the specification (Sym.tla / Rules.tla) for the programs printed by
// Expr.tla, in quadruple precision, at sampled points.  Knows nothing about derivatives: it only does
// arithmetic.  usage: oracle rules programs out seed selftest|points
#include <quadmath.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
typedef __float128 R;
typedef __complex128 C;
using std::string;
using std::vector;

static uint64_t rs = 88172645463325252ull;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
static double uni() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

struct Tok { int f; int a, b, c; vector<int> S; R q; };   // f: opcode
struct Rule { vector<Tok> t; vector<int> roots; };          // roots: results (domain conditions: several)
enum { LEAF_Q, LEAF_R, FIRST };
static std::map<string, int> code;
static vector<string> names;
static int opc(const string& s)
{
    auto i = code.find(s);
    if (i != code.end()) return i->second;
    int k = FIRST + (int)names.size();
    code[s] = k; names.push_back(s);
    return k;
}
static std::map<string, Rule> rules;   // "op act order" or "op act dom"

static bool readRule(std::istream& in)
{
    string w, op, act, ord;
    if (!(in >> w)) return false;
    int n, nr;
    in >> op >> act >> ord >> n >> nr;
    Rule r;
    for (int i = 0; i < n; ++i)
    {
        Tok t; t.a = t.b = t.c = -1; t.q = 0;
        string f; in >> f;
        if (f == "q") { double a, b; in >> a >> b; t.f = LEAF_Q; t.q = (R)a / (R)b; }
        else if (f == "r") { int k, m; in >> k >> m; t.f = LEAF_R; t.a = k - 1; t.S.resize(m); for (int j = 0; j < m; ++j) in >> t.S[j]; }
        else
        {
            t.f = opc(f);
            int m; in >> m;
            if (m > 0) in >> t.a;
            if (m > 1) in >> t.b;
            if (m > 2) in >> t.c;
        }
        r.t.push_back(t);
    }
    r.roots.resize(nr);
    for (int i = 0; i < nr; ++i) in >> r.roots[i];
    rules[op + " " + act + " " + ord] = r;
    return true;
}

struct Bad {};
static R EPS = 0;                 // perturbation size (0: exact)
static R LIMIT = 1e100Q;
static bool FLOATBASE = false;
static bool STRICT = true;
// how far the result of an operation may be off: exactly, in its parts, or relative to the norm
enum { EXACT, PARTS, NORM };
static C pert(C v, int how = NORM)
{
    if (EPS != 0 && how != EXACT)
    {
        R d = EPS * (R)(2 * uni() - 1);
        R e = EPS * (R)(2 * uni() - 1);
        if (__imag__ v != 0 && how == PARTS) { __real__ v *= 1 + d; __imag__ v *= 1 + e; }
        else if (__imag__ v != 0)        // errors of complex operations are relative to the norm
        {
            R n = fabsq(__real__ v) + fabsq(__imag__ v);
            if (__real__ v != 0) __real__ v += d * n;
            __imag__ v += e * n;
        }
        else __real__ v *= 1 + d;
    }
    R m = fabsq(__real__ v) + fabsq(__imag__ v);
    if (!(m < LIMIT)) throw Bad();
    return v;
}
#define RE(x) __real__(x)
static C mk(R a, R b = 0) { C z; __real__ z = a; __imag__ z = b; return z; }

typedef C (*Fn)(C, C, C);
static std::map<string, Fn> fns;
static R sgn(R x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
#define U1(n, e) fns[n] = [](C A, C B_, C C_) -> C { R a = RE(A); (void)a; return mk(e); }
#define B2(n, e) fns[n] = [](C A, C B_, C C_) -> C { R a = RE(A), b = RE(B_); (void)a; (void)b; return mk(e); }
#define CF(n, e) fns[n] = [](C a, C b, C c) -> C { (void)a; (void)b; (void)c; return (e); }
static R expneed(R x) { return expq(x); }
static void setup()
{
#define REAL2 (__imag__ a == 0 && __imag__ b == 0)
    CF("neg", __imag__ a == 0 ? mk(-RE(a)) : -a); CF("add", a + b); CF("sub", a - b);
    CF("mul", REAL2 ? mk(RE(a) * RE(b)) : a * b); CF("div", REAL2 ? mk(RE(a) / RE(b)) : a / b);
    CF("ceq", mk(RE(a) == RE(b) && __imag__ a == __imag__ b ? 1 : 0));
    U1("sin", sinq(a)); U1("cos", cosq(a)); U1("tan", tanq(a)); U1("asin", asinq(a)); U1("acos", acosq(a));
    U1("atan", atanq(a)); U1("sinh", sinhq(a)); U1("cosh", coshq(a)); U1("tanh", tanhq(a)); U1("asinh", asinhq(a));
    U1("acosh", acoshq(a)); U1("atanh", atanhq(a)); U1("exp", expneed(a)); U1("expm1", expm1q(a));
    U1("exp2", powq(2, a)); U1("log", logq(a)); U1("log10", log10q(a)); U1("log2", log2q(a)); U1("log1p", log1pq(a));
    U1("sqrt", sqrtq(a)); U1("cbrt", cbrtq(a)); U1("erf", erfq(a)); U1("erfc", erfcq(a)); U1("abs", fabsq(a));
    U1("sgn", sgn(a)); U1("heav", a > 0 ? 1 : a < 0 ? 0 : 0.5Q); U1("floor", floorq(a)); U1("ceil", ceilq(a));
    U1("trunc", truncq(a)); U1("round", roundq(a)); U1("rint", rintq(a));
    U1("isint", a == rintq(a) ? 1 : -1);
    U1("binexp", ([&] { int e = 0; frexpq(a, &e); return (R)e; })());
    U1("sgnbit", signbitq(a) ? -1 : 1);
    B2("pow", powq(a, b)); B2("mulz", a == 0 ? (R)0 : a * b); B2("atan2", atan2q(a, b)); B2("hypot", hypotq(a, b));
    B2("max", a > b ? a : b); B2("fmax", a > b ? a : b); B2("min", a < b ? a : b); B2("fmin", a < b ? a : b);
    B2("fmod", fmodq(a, b)); B2("remainder", remainderq(a, b)); B2("nextafter", a);
    U1("pi", M_PIq); U1("ln2", M_LN2q); U1("ln10", M_LN10q); U1("two_over_sqrtpi", M_2_SQRTPIq);
    fns["ifpos"] = [](C c, C a, C b) -> C { return RE(c) > 0 ? a : b; };
    // complex
    CF("cplx", mk(RE(a), RE(b))); CF("cneg", -a); CF("cadd", a + b); CF("csub", a - b); CF("cmul", a * b); CF("cdiv", a / b);
    CF("cre", mk(RE(a))); CF("cim", mk(__imag__ a)); CF("cconj", mk(RE(a), -__imag__ a));
    CF("cI", mk(0, 1));
    CF("cexp", cexpq(a)); CF("clog", clogq(a)); CF("csqrt", csqrtq(a)); CF("cpow", cpowq(a, b));
    CF("csin", csinq(a)); CF("ccos", ccosq(a)); CF("ctan", ctanq(a)); CF("casin", casinq(a)); CF("cacos", cacosq(a));
    CF("catan", catanq(a)); CF("csinh", csinhq(a)); CF("ccosh", ccoshq(a)); CF("ctanh", ctanhq(a));
    CF("csec2", 1 / (ccosq(a) * ccosq(a))); CF("csech2", 1 / (ccoshq(a) * ccoshq(a)));
    CF("casinh", casinhq(a)); CF("cacosh", cacoshq(a)); CF("catanh", catanhq(a));
}
static vector<Fn> fnv;
static Fn fn(int f)
{
    while ((int)fnv.size() <= f - FIRST) { auto i = fns.find(names[fnv.size()]); fnv.push_back(i == fns.end() ? nullptr : i->second); }
    Fn r = fnv[f - FIRST];
    if (!r) { fprintf(stderr, "no function %s\n", names[f - FIRST].c_str()); exit(9); }
    return r;
}

// ---------------------------------------------------------------- programs
struct PNode { string op, act; vector<int> a; char kind; int k; };
struct Prog { int id, ni, order, npts, deep, base; vector<PNode> n; vector<int> out; vector<vector<double>> forced; };

struct Eval
{
    const Prog& p;
    const vector<R>& x; const vector<R>& par;
    vector<int> dirs;
    int M;
    vector<C> N; vector<char> have;
    vector<R> NM;      // magnitude of every value: sum of the absolute values of the terms it consists of
    Eval(const Prog& p_, const vector<R>& x_, const vector<R>& par_, const vector<int>& d)
        : p(p_), x(x_), par(par_), dirs(d), M(1 << d.size()), N(p.n.size() * M), have(p.n.size() * M, 0), NM(p.n.size() * M, 0) {}
    vector<C> val;
    C get(int k, int mask)
    {
        size_t ix = k * M + mask;
        if (have[ix]) return N[ix];
        const PNode& n = p.n[k];
        C r = mk(0);
        R mg = -1;
        if (n.op == "in") r = mask == 0 ? mk(x[n.k]) : (mask & (mask - 1)) == 0 ? mk(dirs[__builtin_ctz(mask)] == n.k ? 1 : 0) : mk(0);
        else if (n.op == "par")
        {
            if (mask == 0) { r = mk(par[n.k]); if (FLOATBASE && n.kind == 'd') r = pert(r); }
        }
        else
        {
            vector<int> pos;
            for (int b = 0; (1 << b) < M; ++b) if (mask >> b & 1) pos.push_back(b);
            r = run(rule(n, std::to_string(pos.size())), n, pos, &mg)[0];
        }
        NM[ix] = mg < 0 ? absq(r) : mg;
        N[ix] = r; have[ix] = 1;
        return r;
    }
    const Rule& rule(const PNode& n, const string& o)
    {
        auto i = rules.find(n.op + " " + n.act + " " + o);
        if (i == rules.end()) { fprintf(stderr, "no rule %s %s %s\n", n.op.c_str(), n.act.c_str(), o.c_str()); exit(9); }
        return i->second;
    }
    static R absq(C z) { return fabsq(RE(z)) + fabsq(__imag__ z); }
    vector<C> run(const Rule& r, const PNode& n, const vector<int>& pos, R* mag = nullptr)
    {
        vector<R> m(r.t.size(), 0);
        vector<C> v(r.t.size());
        vector<char> done(r.t.size(), 0);
        vector<C> res;
        for (int root : r.roots) res.push_back(node(r, n, pos, v, done, root, m));
        if (mag) *mag = m[r.roots[0]];
        return res;
    }
    C node(const Rule& r, const PNode& n, const vector<int>& pos, vector<C>& v, vector<char>& done, int i, vector<R>& m)
    {
        if (done[i]) return v[i];
        const Tok& t = r.t[i];
        C z = mk(0);
        if (t.f == LEAF_Q) z = mk(t.q);
        else if (t.f == LEAF_R)
        {
            int mask = 0;
            for (int d : t.S) mask |= 1 << pos[d - 1];
            z = get(n.a[t.a], mask);
            m[i] = NM[n.a[t.a] * M + mask];
        }
        else if (names[t.f - FIRST] == "ifpos")      // evaluate only the branch taken
        {
            bool p1 = RE(node(r, n, pos, v, done, t.a, m)) > 0;
            z = p1 ? node(r, n, pos, v, done, t.b, m) : node(r, n, pos, v, done, t.c, m);
            m[i] = m[p1 ? t.b : t.c];
        }
        else if (names[t.f - FIRST] == "mulz")
        {
            C a = node(r, n, pos, v, done, t.a, m);
            z = RE(a) == 0 ? mk(0) : pert(mk(RE(a) * RE(node(r, n, pos, v, done, t.b, m))));
            m[i] = RE(a) == 0 ? (R)0 : m[t.a] * m[t.b];
        }
        else
        {
            C a = t.a >= 0 ? node(r, n, pos, v, done, t.a, m) : mk(0);
            C b = t.b >= 0 ? node(r, n, pos, v, done, t.b, m) : mk(0);
            C c = t.c >= 0 ? node(r, n, pos, v, done, t.c, m) : mk(0);
            const string& f = names[t.f - FIRST];
            bool ex = f == "neg" || f == "cplx" || f == "cre" || f == "cim" || f == "cconj" || f == "ceq" || f == "cneg";
            if (f == "clog") a = pert(a);       // the modulus is rounded before the logarithm is taken
            z = pert(fn(t.f)(a, b, c), ex ? EXACT : f == "add" || f == "sub" ? PARTS : NORM);
            if (f == "add" || f == "sub" || f == "cadd" || f == "csub" || f == "cplx") m[i] = m[t.a] + m[t.b];
            else if (f == "mul" || f == "cmul") m[i] = m[t.a] * m[t.b];
            else if (f == "div" || f == "cdiv") m[i] = absq(b) > 0 ? m[t.a] * (m[t.b] / absq(b)) / absq(b) : m[t.a];
            else if (f == "neg" || f == "cneg" || f == "cre" || f == "cim" || f == "cconj") m[i] = m[t.a];
        }
        if (m[i] < absq(z)) m[i] = absq(z);
        v[i] = z; done[i] = 1;
        return z;
    }
};

// The functions over the complex numbers are defined through exp, log and sqrt, with a second formulation
// as a primitive with its own derivative.  Both have to agree.
static long checkAlternatives()
{
    long bad = 0;
    for (auto& kv : rules)
    {
        std::istringstream is(kv.first);
        string op, act, o;
        is >> op >> act >> o;
        if (o != "alt") continue;
        Prog p;
        p.id = -1; p.ni = 2; p.order = 1; p.npts = 0; p.deep = 0; p.base = 0;
        for (int k = 0; k < 2; ++k) { PNode n; n.op = "in"; n.k = k; n.kind = ' '; p.n.push_back(n); }
        { PNode n; n.op = "zcplx"; n.act = "AA"; n.a = {0, 1}; n.kind = ' '; n.k = 0; p.n.push_back(n); }
        { PNode n; n.op = op; n.act = act; n.a = {2}; n.kind = ' '; n.k = 0; p.n.push_back(n); }
        int used = 0;
        for (int i = 0; i < 400; ++i)
        {
            vector<R> x = {6 * uni() - 3, 6 * uni() - 3}, par;
            if (i % 8 == 0) x[i / 8 % 2] = 0;
            EPS = 0;
            Eval e(p, x, par, {i % 2});
            try
            {
                bool in = true;
                for (C c : e.run(e.rule(p.n[3], "dom"), p.n[3], {})) in = in && RE(c) > 1e-6Q;
                if (!in) continue;
                ++used;
                vector<C> alt = e.run(kv.second, p.n[3], {0});
                for (int m = 0; m < 2; ++m)
                    if (!(Eval::absq(alt[m] - e.get(3, m)) < 1e-20Q * (1 + Eval::absq(alt[m]))))
                    {
                        if (++bad < 10)
                            fprintf(stderr, "%s: formulations differ at %g + %g i (%s)\n", op.c_str(), (double)x[0], (double)x[1], m ? "derivative" : "value");
                    }
            }
            catch (Bad&) { }
        }
        if (used < 40) { ++bad; fprintf(stderr, "%s: alternatives compared at %d points only\n", op.c_str(), used); }
    }
    return bad;
}

static double q2d(R x) { return (double)x; }
static double rb(double v, bool flt) { return flt ? (double)(float)v : v; }
static double sample(const Prog& p, double prev, bool flt)
{
    double u = uni(), s = uni() < 0.5 ? -1 : 1, v;
    if (p.deep ? u < 0.45 : u < 0.25) v = 6 * uni() - 3;
    else if (p.deep ? u < 0.85 : u < 0.4) v = 0.05 + 1.6 * uni();
    else if (u < 0.9 && p.deep) v = s * std::pow(10.0, -4 * uni());
    else if (u < 0.55) v = s * std::pow(10.0, -4 * uni());
    else if (u < 0.7) v = s * std::pow(10.0, 4 * uni());
    else if (u < 0.78) v = s * (double)(int)(1 + 9 * uni());
    else if (u < 0.86) v = s * std::pow(10.0, (flt ? 8 : 16) * uni() - (flt ? 4 : 8));
    else if (u < 0.96) v = prev + 0.0025 * (uni() - 0.5);
    else v = prev * (1 + 0.1 * (uni() - 0.5));
    return rb(v, flt);
}
static double samplePar(const Prog& p, const PNode& n, double prev, bool flt)
{
    if (n.kind == 'o') return 1;
    if (n.kind == 'u') return (int)(uni() < 0.7 ? 7 * uni() : 40 * uni());
    if (n.kind == 'i' || n.kind == 's')
    {
        double u = uni();
        if (u < 0.7 || p.deep || n.kind == 's') return (int)(12 * uni()) - 5;
        if (u < 0.82) return (int)(2000 * uni()) - 1000;
        if (u < 0.92) return (int)(120000 * uni()) - 60000;
        return std::floor(4294967295. * uni() - 2147483648.);
    }
    // numbers of the other arithmetic types
    if (n.kind == 't') return uni() < 0.5;
    if (n.kind == 'k') return std::floor(256 * uni()) - 128;
    if (n.kind == 'h') return uni() < 0.5 ? std::floor(11 * uni()) - 5 : std::floor(65536 * uni()) - 32768;
    if (n.kind == 'U' || n.kind == 'L' || n.kind == 'W')
    {
        double u = uni(), lo = n.kind == 'L';
        if (u < 0.5) return std::floor(11 * uni()) - 5 * lo;
        u = (u - 0.5) * 2;
        double m = std::floor(std::pow(2., (n.kind == 'U' ? 32 : 53) * uni())) - 1;
        return lo && u < 0.5 ? -m : m;
    }
    double v = sample(p, prev, flt);
    return n.kind == 'f' ? (double)(float)v : v;
}

int main(int argc, char** argv)
{
    setup();
    std::ifstream rf(argv[1]);
    while (readRule(rf)) {}
    rs ^= strtoull(argv[4], 0, 10) * 0x9E3779B97F4A7C15ull;
    for (int i = 0; i < 10; ++i) rnd();
    int shard = argc > 5 ? atoi(argv[5]) : 0, nsh = argc > 6 ? atoi(argv[6]) : 1;
    bool selftest = argc > 7 && string(argv[7]) == "selftest";
    rs += shard * 7919; rnd(); rnd();
    if (selftest && shard == 0 && checkAlternatives()) return 1;
    std::ifstream pf(argv[2]);
    FILE* out = fopen(argv[3], "wb");
    string w;
    long pts = 0, progs = 0, dead = 0, bad = 0, idx = 0;
    while (pf >> w)
    {
        Prog p; int nn, no, nf;
        pf >> p.id >> p.ni >> p.order >> p.npts >> p.deep >> p.base >> nn >> no >> nf;
        int np = 0;
        for (int i = 0; i < nn; ++i)
        {
            PNode n; n.kind = ' '; n.k = 0;
            pf >> n.op;
            if (n.op == "in") { pf >> n.k; }
            else if (n.op == "par") { pf >> n.kind; n.k = np++; }
            else { int m; pf >> n.act >> m; n.a.resize(m); for (int j = 0; j < m; ++j) pf >> n.a[j]; }
            p.n.push_back(n);
        }
        p.out.resize(no);
        for (int i = 0; i < no; ++i) pf >> p.out[i];
        for (int i = 0; i < nf; ++i)
        {
            vector<double> f(p.ni + np);
            for (auto& v : f) { string t; pf >> t; v = strtod(t.c_str(), 0); }
            p.forced.push_back(f);
        }
        if (idx++ % nsh != shard) continue;
        ++progs;
        bool flt = p.base == 1;
        FLOATBASE = flt;
        LIMIT = flt ? 1e12Q : 1e60Q;
        R eps = flt ? 6e-8Q : 1.2e-16Q;
        int got = 0;
        long badp = 0, cmpp = 0;
        int tries = nf ? nf : (p.deep ? 400 : 60 * p.npts);
        for (int tr = 0; tr < tries && got < (nf ? nf : p.npts); ++tr)
        {
            vector<R> x(p.ni), par(np);
            double prev = 0.7;
            if (nf)
            {
                for (int i = 0; i < p.ni; ++i) x[i] = p.forced[tr][i];
                for (int i = 0; i < np; ++i) par[i] = p.forced[tr][p.ni + i];
            }
            else
            {
                for (int i = 0; i < p.ni; ++i) { double v = sample(p, prev, flt); x[i] = v; prev = v; }
                for (auto& n : p.n) if (n.op == "par") par[n.k] = samplePar(p, n, prev, flt);
            }
            try
            {
                // domain
                const int SM = 4;
                bool dom = !nf || p.deep;      // forced points: domain only on request
                if (dom)
                {
                    vector<vector<R>> conds;
                    for (int s = 0; s <= SM; ++s)
                    {
                        EPS = s == 0 ? (R)0 : eps;
                        Eval e(p, x, par, {});
                        vector<R> cs;
                        for (size_t k = 0; k < p.n.size(); ++k)
                        {
                            if (p.n[k].a.empty()) continue;
                            C v = e.get(k, 0);
                            if (!(fabsq(RE(v)) < LIMIT)) throw Bad();
                            for (C c : e.run(e.rule(p.n[k], p.order > 2 ? "dom3" : "dom"), p.n[k], {})) cs.push_back(RE(c));
                        }
                        conds.push_back(cs);
                    }
                    for (size_t i = 0; i < conds[0].size(); ++i)
                    {
                        R sp = 0;
                        for (int s = 1; s <= SM; ++s) sp = std::max(sp, fabsq(conds[s][i] - conds[0][i]));
                        if (!(conds[0][i] > 1000 * sp) || !(conds[0][i] > 0)) throw Bad();
                    }
                }
                // all directions
                int nd = 1;
                for (int o = 0; o < p.order; ++o) nd *= p.ni;
                vector<double> block;
                for (int d = 0; d < nd; ++d)
                {
                    vector<int> dirs;
                    int q = d;
                    for (int o = 0; o < p.order; ++o) { dirs.push_back(q % p.ni); q /= p.ni; }
                    int M = 1 << p.order;
                    vector<R> ex, sp, mag;
                    for (int s = 0; s <= SM; ++s)
                    {
                        EPS = s == 0 ? (R)0 : eps;
                        Eval e(p, x, par, dirs);
                        size_t c = 0;
                        for (int k : p.out)
                            for (int m = 0; m < M; ++m, ++c)
                            {
                                R v = RE(e.get(k, m));
                                if (s == 0) { ex.push_back(v); sp.push_back(0); mag.push_back(e.NM[k * M + m]); }
                                else sp[c] = std::max(sp[c], fabsq(v - ex[c]));
                            }
                    }
                    for (size_t c = 0; c < ex.size(); ++c)
                    {
                        R tol = 200 * sp[c] + 16 * eps * mag[c] + (flt ? 1e-30Q : 1e-200Q);
                        if (!nf && (tol > fabsq(ex[c]) * 1e-2Q + 1e-3Q)) throw Bad();     // ill-conditioned: nothing to compare
                        block.push_back(q2d(ex[c])); block.push_back(q2d(tol));
                    }
                    if (selftest && p.order >= 1 && !nf)
                    {
                        // the rules are derivatives: compare with central differences of the next lower order
                        EPS = 0;
                        Eval e(p, x, par, dirs);
                        int last = p.order - 1, i = dirs[last];
                        R h = 1e-11Q * (1 + fabsq(x[i]));
                        if (fabsq(x[i]) < 1 && x[i] != 0) h = 1e-11Q * fabsq(x[i]);
                        vector<R> xp = x, xm = x; xp[i] += h; xm[i] -= h;
                        Eval ep(p, xp, par, dirs), em(p, xm, par, dirs);
                        ++cmpp;
                        for (int k : p.out)
                            for (int m = 0; m < (1 << last); ++m)
                            {
                                R num = (RE(ep.get(k, m)) - RE(em.get(k, m))) / (2 * h), sym = RE(e.get(k, m | 1 << last));
                                R scale = fabsq(sym) + fabsq(RE(e.get(k, m))) + 1;
                                if (!(fabsq(num - sym) < 1e-6Q * scale))
                                {
                                    ++badp;
                                    if (badp < 5 && bad < 20) fprintf(stderr, "selftest prog %d out %d mask %d: numeric %g rule %g\n", p.id, k, m, q2d(num), q2d(sym));
                                }
                            }
                    }
                }
                int hd[6] = {p.id, p.order, p.base, p.ni, np, (int)p.out.size()};
                fwrite(hd, sizeof hd, 1, out);
                for (R v : x) { double d = q2d(v); fwrite(&d, 8, 1, out); }
                for (R v : par) { double d = q2d(v); fwrite(&d, 8, 1, out); }
                fwrite(block.data(), 8, block.size(), out);
                ++got; ++pts;
            }
            catch (Bad&) { }
        }
        // differences taken across a jump may be off now and then
        if (badp > 2 && badp * 10 > cmpp) bad += badp;
        if (!got && !nf) { ++dead; printf("dead %d\n", p.id); }
    }
    fclose(out);
    printf("progs %ld points %ld dead %ld bad %ld\n", progs, pts, dead, bad);
    return bad ? 1 : 0;
}
