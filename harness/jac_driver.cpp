// Replays behaviours of spec/Jac.tla into computeJacobian / computeHessian.
// usage: jac_driver behaviours shard nshards statefile
#include "drv.hpp"
#include <XAD/Hessian.hpp>
#include <XAD/Jacobian.hpp>
#include <deque>
#include <list>
#include <memory>
using xad::AReal;
using xad::FReal;
typedef std::vector<int> VI;
struct Mono { int c; VI ix; };
typedef std::vector<Mono> Poly;
struct Step { char c; std::string arg, ov, outcome; VI rows; std::vector<VI> m; VI v, g, t, s; };
struct Beh { std::string fam, style, tape; int n; bool reg; VI xs, pre; std::vector<Poly> outs; std::vector<Step> steps; long idx; };
struct UserError {};

template <class A> A eval(const Poly& p, const std::vector<A>& x, bool local)
{
    if (p.size() == 1 && p[0].c == 1 && p[0].ix.size() == 1) return x[p[0].ix[0] - 1];
    if (p.size() == 1 && p[0].ix.empty()) return A(p[0].c);
    A r = 0;
    for (auto& m : p)
    {
        if (m.ix.size() == 2 && m.ix[0] != m.ix[1] && !local) { r = r + m.c * (x[m.ix[0] - 1] * x[m.ix[1] - 1]); continue; }
        A q = m.c;
        for (int i : m.ix) { if (local) q = x[i - 1] * q; else q *= x[i - 1]; }
        if (local) { A s(q); r = s + r; } else r += q;
    }
    return r;
}
// the function in different manners
template <class A> std::vector<A> fun(const Beh& b, std::vector<A>& x)
{
    std::vector<A> y;
    const std::string& st = b.style;
    if (st == "throw")
    {
        for (auto& p : b.outs) y.push_back(eval(p, x, true));
        for (auto& v : x) v = v * 2;
        throw UserError();
    }
    if (st == "ret")
    {
        for (auto& p : b.outs) y.push_back(eval(p, x, false));
        x.resize(y.size());
        for (size_t i = 0; i < y.size(); ++i) x[i] = y[i];
        return std::move(x);
    }
    for (auto& p : b.outs) y.push_back(eval(p, x, st == "local"));
    if (st == "inplace")
        for (size_t j = 0; j < x.size(); ++j) { if (y.empty()) x[j] = 5; else x[j] = y[j % y.size()] * x[j]; }
    else if (st == "clear") x.clear();
    else if (st == "swap" && !x.empty()) std::swap(x[0], x[x.size() - 1]);
    return y;
}

template <class T> struct IsRev : std::false_type {};
template <class T> struct IsRev<AReal<T>> : std::true_type {};

// ---- inner derivatives of the inputs
inline void setPre(AReal<double>&, int) {}
inline void setPre(AReal<float>&, int) {}
inline void setPre(AReal<FReal<double>>& x, int p) { derivative(value(x)) = p; }
inline void setPre(AReal<FReal<float>>& x, int p) { derivative(value(x)) = p; }
template <class T> void setPre(FReal<T>& x, int p) { derivative(x) = p; }
inline void setPre(FReal<FReal<double>>& x, int p) { derivative(value(x)) = p; value(derivative(x)) = 2 * p; derivative(derivative(x)) = 3 * p; }
inline bool preIs(const AReal<double>&, int) { return true; }
inline bool preIs(const AReal<float>&, int) { return true; }
inline bool preIs(const AReal<FReal<double>>& x, int p) { return derivative(value(x)) == p; }
inline bool preIs(const AReal<FReal<float>>& x, int p) { return derivative(value(x)) == p; }
template <class T> bool preIs(const FReal<T>& x, int p) { return num(derivative(x)) == p; }
inline bool preIs(const FReal<FReal<double>>& x, int p) { return derivative(value(x)) == p && value(derivative(x)) == 2 * p && derivative(derivative(x)) == 3 * p; }

// ---- tapes
template <class A, bool rev> struct Env
{
    void init(Beh&, std::vector<A>&) {}
    void check(const Beh&, const std::vector<A>&, bool) {}
    void use(const Beh& b, const Step& s, std::vector<A>& x, bool&)
    {
        std::vector<A> z(x);
        std::vector<A> y;
        for (auto& p : b.outs) y.push_back(eval(p, z, true));
        for (size_t i = 0; i < y.size(); ++i)
        {
            if (num(y[i]) != s.v[i]) mismatch("use: output %d is %g, expected %d", (int)i, num(y[i]), s.v[i]);
            tang(y[i], s.t[i]);
        }
    }
    template <class U> void tang(const FReal<U>& y, int t) { if (num(derivative(y)) != t) mismatch("use: tangent is %g, expected %d", num(derivative(y)), t); }
    void tang(const FReal<FReal<double>>& y, int t)
    {
        if (derivative(value(y)) != t || value(derivative(y)) != 2 * t) mismatch("use: tangents are %g %g, expected %d %d", derivative(value(y)), value(derivative(y)), t, 2 * t);
    }
};
template <class A> struct Env<A, true>
{
    typedef typename A::tape_type T;
    std::unique_ptr<T> tape, other;
    void init(Beh& b, std::vector<A>& x)
    {
        if (b.tape == "none") return;
        tape.reset(new T());
        if (b.reg) tape->registerInputs(x);
        if (b.tape != "active") tape->deactivate();
        if (b.tape == "other") other.reset(new T());
    }
    T* expected(const Beh& b) { return b.tape == "active" ? tape.get() : b.tape == "other" ? other.get() : nullptr; }
    void check(const Beh& b, const std::vector<A>& x, bool reg)
    {
        if (T::getActive() != expected(b)) mismatch("another tape is active after the call");
        for (auto& v : x) if (v.shouldRecord() != reg) mismatch("an input is %sregistered after the call", reg ? "not " : "");
        if (tape && tape->getNumVariables() != (reg ? x.size() : 0)) mismatch("%d variables on the tape, expected %d", (int)tape->getNumVariables(), (int)(reg ? x.size() : 0));
        if (other && other->getNumVariables() != 0) mismatch("%d variables left on the other tape", (int)other->getNumVariables());
    }
    static double tangOf(const FReal<double>& d) { return derivative(d); }
    static double tangOf(const FReal<float>& d) { return derivative(d); }
    template <class U> static double tangOf(const U&) { return 0; }
    void use(const Beh& b, const Step& s, std::vector<A>& x, bool& reg)
    {
        if (b.tape == "none") { T t; std::vector<A> z(x); t.registerInputs(z); run(b, s, z, t); return; }
        if (b.tape == "other") { std::vector<A> z(x); other->registerInputs(z); run(b, s, z, *other); return; }
        if (b.tape == "inactive") tape->activate();
        tape->registerInputs(x);
        reg = true;
        run(b, s, x, *tape);
        if (b.tape == "inactive") tape->deactivate();
    }
    void run(const Beh& b, const Step& s, std::vector<A>& x, T& t)
    {
        t.newRecording();
        std::vector<A> y;
        for (auto& p : b.outs) y.push_back(eval(p, x, true));
        t.registerOutputs(y);
        for (size_t i = 0; i < y.size(); ++i)
        {
            if (num(y[i]) != s.v[i]) mismatch("use: output %d is %g, expected %d", (int)i, num(y[i]), s.v[i]);
            derivative(y[i]) = 2 * (int)i + 1;
        }
        if (!y.empty()) t.computeAdjoints();
        for (size_t j = 0; j < x.size(); ++j)
        {
            if (y.empty()) break;
            if (num(derivative(x[j])) != s.g[j]) mismatch("use: derivative %d is %g, expected %d", (int)j, num(derivative(x[j])), s.g[j]);
            if (b.fam == "fa" && tangOf(derivative(x[j])) != s.s[j]) mismatch("use: second derivative %d is %g, expected %d", (int)j, tangOf(derivative(x[j])), s.s[j]);
        }
    }
};

// ---- calls
template <class It, class A> void callIt(const Beh& b, const Step& s, std::vector<A>& x, It f, It l, std::true_type jac, std::true_type rev, typename A::tape_type* tp)
{
    std::function<std::vector<A>(std::vector<A>&)> foo = [&](std::vector<A>& z) { return fun(b, z); };
    if (s.arg == "def") xad::computeJacobian(x, foo, f, l); else xad::computeJacobian(x, foo, f, l, tp);
}
template <class It, class A> void callIt(const Beh& b, const Step& s, std::vector<A>& x, It f, It l, std::true_type jac, std::false_type rev, void*)
{
    std::function<std::vector<A>(std::vector<A>&)> foo = [&](std::vector<A>& z) { return fun(b, z); };
    xad::computeJacobian(x, foo, f, l);
}
template <class It, class A> void callIt(const Beh& b, const Step& s, std::vector<A>& x, It f, It l, std::false_type jac, std::true_type rev, typename A::tape_type* tp)
{
    std::function<A(std::vector<A>&)> foo = [&](std::vector<A>& z) { return A(fun(b, z)[0]); };
    if (s.arg == "def") xad::computeHessian(x, foo, f, l); else xad::computeHessian(x, foo, f, l, tp);
}
template <class It, class A> void callIt(const Beh& b, const Step& s, std::vector<A>& x, It f, It l, std::false_type jac, std::false_type rev, void*)
{
    std::function<A(std::vector<A>&)> foo = [&](std::vector<A>& z) { return A(fun(b, z)[0]); };
    xad::computeHessian(x, foo, f, l);
}
template <class E, class A> std::vector<std::vector<E>> callMat(const Beh& b, const Step& s, std::vector<A>& x, std::true_type jac, std::true_type rev, typename A::tape_type* tp)
{
    std::function<std::vector<A>(std::vector<A>&)> foo = [&](std::vector<A>& z) { return fun(b, z); };
    return s.arg == "def" ? xad::computeJacobian(x, foo) : xad::computeJacobian(x, foo, tp);
}
template <class E, class A> std::vector<std::vector<E>> callMat(const Beh& b, const Step& s, std::vector<A>& x, std::true_type jac, std::false_type rev, void*)
{
    std::function<std::vector<A>(std::vector<A>&)> foo = [&](std::vector<A>& z) { return fun(b, z); };
    return xad::computeJacobian(x, foo);
}
template <class E, class A> std::vector<std::vector<E>> callMat(const Beh& b, const Step& s, std::vector<A>& x, std::false_type jac, std::true_type rev, typename A::tape_type* tp)
{
    std::function<A(std::vector<A>&)> foo = [&](std::vector<A>& z) { return A(fun(b, z)[0]); };
    return s.arg == "def" ? xad::computeHessian(x, foo) : xad::computeHessian(x, foo, tp);
}
template <class E, class A> std::vector<std::vector<E>> callMat(const Beh& b, const Step& s, std::vector<A>& x, std::false_type jac, std::false_type rev, void*)
{
    std::function<A(std::vector<A>&)> foo = [&](std::vector<A>& z) { return A(fun(b, z)[0]); };
    return xad::computeHessian(x, foo);
}
template <class A, bool rev> struct TapeArg { static void* get(Env<A, false>&, const Step&) { return nullptr; } };
template <class A> struct TapeArg<A, true> { static typename A::tape_type* get(Env<A, true>& e, const Step& s) { return s.arg == "ptr" ? e.tape.get() : nullptr; } };

template <class M> void expect(const Step& s, const M& m, bool filled)
{
    size_t i = 0;
    for (auto& r : m)
    {
        size_t j = 0;
        for (auto& e : r)
        {
            double w = filled ? s.m.at(i).at(j) : 77;
            if (num(e) != w) mismatch("entry (%d, %d) is %g, expected %g", (int)i, (int)j, num(e), w);
            ++j;
        }
        if (filled && j != s.m.at(i).size()) mismatch("row %d has %d entries", (int)i, (int)j);
        ++i;
    }
    if (filled && i != s.m.size()) mismatch("%d rows, expected %d", (int)i, (int)s.m.size());
}
template <class Row> void setRow(Row& r, int n) { for (int k = 0; k < n; ++k) r.push_back(77); }

template <class M, class A, class Jac, class E> void iter(const Beh& b, const Step& s, std::vector<A>& x, Env<A, IsRev<A>::value>& env, bool& done)
{
    M m;
    for (int n : s.rows) { typename M::value_type r; setRow(r, n); m.push_back(r); }
    try { callIt(b, s, x, m.begin(), m.end(), Jac(), std::integral_constant<bool, IsRev<A>::value>(), TapeArg<A, IsRev<A>::value>::get(env, s)); done = true; expect(s, m, s.outcome == "matrix"); }
    catch (UserError&) { throw; }
    catch (Mismatch&) { throw; }
    catch (...) { expect(s, m, false); throw; }
}

template <class A, class E, class Jac> void play(Beh& b)
{
    const bool rev = IsRev<A>::value;
    Env<A, rev> env;
    std::vector<A> x;
    for (int v : b.xs) x.push_back(A(v));
    env.init(b, x);
    for (int j = 0; j < b.n; ++j) setPre(x[j], b.pre[j]);
    bool reg = b.reg;
    int k = 0;
    for (auto& s : b.steps)
    {
        ++k;
        try
        {
            if (s.c == 'U') env.use(b, s, x, reg);
            else
            {
                std::string got = "matrix";
                bool done = false;
                try
                {
                    if (s.ov == "mat")
                    {
                        auto m = callMat<E>(b, s, x, Jac(), std::integral_constant<bool, rev>(), TapeArg<A, rev>::get(env, s));
                        done = true;
                        if (s.outcome == "matrix") expect(s, m, true);
                    }
                    else if ((b.idx + k) % 4 == 1) iter<std::list<std::list<E>>, A, Jac, E>(b, s, x, env, done);
                    else if ((b.idx + k) % 4 == 2) iter<std::deque<std::vector<E>>, A, Jac, E>(b, s, x, env, done);
                    else iter<std::vector<std::vector<E>>, A, Jac, E>(b, s, x, env, done);
                }
                catch (UserError&) { got = "user"; }
                catch (xad::OutOfRange&) { got = "OutOfRange"; }
                catch (xad::TapeAlreadyActive&) { got = "TapeAlreadyActive"; }
                catch (std::exception& e) { got = e.what(); }
                if (got != s.outcome) mismatch("the call gave '%s', expected '%s'", got.c_str(), s.outcome.c_str());
            }
            for (int j = 0; j < b.n; ++j)
            {
                if (num(x[j]) != b.xs[j]) mismatch("input %d is %g after the call, was %d", j, num(x[j]), b.xs[j]);
                if (!preIs(x[j], b.pre[j])) mismatch("derivative of input %d has changed", j);
            }
            env.check(b, x, reg);
        }
        catch (Mismatch& m) { throw Mismatch{"step " + std::to_string(k) + ": " + m.what}; }
        catch (std::exception& e) { throw Mismatch{"step " + std::to_string(k) + ": exception " + e.what()}; }
    }
    x.clear();
}

static VI ints(std::istringstream& is) { int n; is >> n; VI r(n); for (auto& v : r) is >> v; return r; }
int main(int argc, char** argv)
{
    std::ifstream f(argv[1]);
    long shard = atol(argv[2]), n = atol(argv[3]), idx = -1, played = 0;
    Progress pr(argv[4]);
    std::string l;
    Beh b;
    bool mine = false;
    while (std::getline(f, l))
    {
        if (l[0] == 'B') { ++idx; mine = idx % n == shard; }
        if (!mine) continue;
        std::istringstream is(l.substr(1));
        if (l[0] == 'B')
        {
            b = Beh(); b.idx = idx; pr.set(idx);
            is >> b.fam >> b.style >> b.tape >> b.reg >> b.n; b.xs = ints(is); b.pre = ints(is);
        }
        else if (l[0] == 'F') { Poly p; int k; is >> k; while (k--) { Mono m; is >> m.c; m.ix = ints(is); p.push_back(m); } b.outs.push_back(p); }
        else if (l[0] == 'C') { Step s; s.c = 'C'; int r; is >> s.arg >> s.ov >> s.outcome; s.rows = ints(is); is >> r; while (r--) s.m.push_back(ints(is)); b.steps.push_back(s); }
        else if (l[0] == 'U') { Step s; s.c = 'U'; s.v = ints(is); s.g = ints(is); s.t = ints(is); s.s = ints(is); b.steps.push_back(s); }
        else if (l[0] == 'E')
        {
            const char* ty = "";
            try
            {
#define PLAY(F, Jac, A, E) if (b.fam == F) { ty = #A; play<A, E, Jac>(b); }
                PLAY("adj", std::true_type, AReal<double>, double) PLAY("adj", std::true_type, AReal<float>, float)
                PLAY("adj", std::true_type, AReal<FReal<double>>, FReal<double>)
                PLAY("fwd", std::true_type, FReal<double>, double) PLAY("fwd", std::true_type, FReal<float>, float)
                PLAY("fwd", std::true_type, FReal<AReal<double>>, AReal<double>)
                PLAY("fa", std::false_type, AReal<FReal<double>>, double) PLAY("fa", std::false_type, AReal<FReal<float>>, float)
                PLAY("ff", std::false_type, FReal<FReal<double>>, double)
                ++played;
            }
            catch (Mismatch& m)
            {
                printf("MISMATCH %ld %s %s\n", idx, ty, m.what.c_str());
                return 1;
            }
        }
    }
    printf("DONE %ld %ld\n", played, played);
    return 0;
}
