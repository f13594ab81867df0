// Makes the calls of Passive.tla on active values of type TYPE and compares with the specification's
// answers and with the same call on the plain value.
#define XAD_ALLOW_INT_CONVERSION
#include "drv.hpp"
#include <XAD/StdCompatibility.hpp>
#include <math.h>
#include <cmath>
#include <functional>
#include <iomanip>
#include <limits>
#include <map>
#include <unordered_map>

#ifndef TYPE
#define TYPE xad::AReal<double>
#endif
typedef TYPE T;
using std::string;

template <class X> struct BaseOf { typedef X type; };
template <class X> struct BaseOf<xad::AReal<X>> : BaseOf<X> {};
template <class X> struct BaseOf<xad::FReal<X>> : BaseOf<X> {};
typedef BaseOf<T>::type B;
typedef std::conditional<std::is_same<B, double>::value, float, double>::type F;

inline double base(double x) { return x; }
inline float base(float x) { return x; }
template <class X> B base(const xad::FReal<X>& x);
template <class X> B base(const xad::AReal<X>& x) { return base(xad::value(x)); }
template <class X> B base(const xad::FReal<X>& x) { return base(xad::value(x)); }
template <class S, class D> B base(const xad::Expression<S, D>& x) { return base(xad::value(x)); }

// the tape of the type, if it has one
template <class X> struct Tp
{
    static void reg(X&) {}
    static std::vector<unsigned> counts() { return {}; }
};
template <class X> struct Tp<xad::AReal<X>>
{
    static xad::Tape<X>& tape() { static xad::Tape<X> t; return t; }
    static void reg(xad::AReal<X>& x) { tape().registerInput(x); }
    static std::vector<unsigned> counts()
    {
        return {unsigned(tape().getNumStatements()), unsigned(tape().getNumOperations()), unsigned(tape().getNumVariables())};
    }
};

static B mk(const string& c, int s, long m)
{
    typedef std::numeric_limits<B> L;
    B r = c == "nan" ? L::quiet_NaN() : c == "inf" ? L::infinity() : c == "zero" ? B(0) : c == "sub" ? L::denorm_min()
          : c == "min" ? L::min() : c == "max" ? L::max() : B(std::labs(m)) / 8;
    return s ? -r : r;
}

// texts of answers
static string tk(B v)
{
    string s = std::signbit(v) ? " 1" : " 0";
    switch (std::fpclassify(v))
    {
    case FP_NAN: return "nan" + s + " 0";
    case FP_INFINITE: return "inf" + s + " 0";
    case FP_ZERO: return "zero" + s + " 0";
    case FP_SUBNORMAL: return (std::fabs(v) == std::numeric_limits<B>::denorm_min() ? "sub" : "denormal") + s + " 0";
    default: break;
    }
    if (std::fabs(v) == std::numeric_limits<B>::min()) return "min" + s + " 0";
    if (std::fabs(v) == std::numeric_limits<B>::max()) return "max" + s + " 0";
    B e = v * 8;
    char b[60];
    if (std::fabs(e) < 1e9 && std::floor(e) == e) snprintf(b, sizeof b, "fin%s %ld", s.c_str(), long(e));
    else snprintf(b, sizeof b, "fin%s %a", s.c_str(), double(v));
    return b;
}
template <class X> string val(const X& x) { return tk(base(x)); }
static string bt(bool b) { return b ? "1" : "0"; }
template <class I> string it(I i) { return std::to_string(i); }
static string agree(const string& a, const string& b) { return a == b ? a : "std " + a + " but xad " + b; }

static string reported;
template <class Fn> void silent(bool check, Fn fn)
{
    auto before = Tp<T>::counts();
    fn();
    if (check && Tp<T>::counts() != before)
        mismatch("the call recorded something");
}

// calls f with an operand of kind k
template <class Fn> void with(char k, B v, Fn f)
{
    switch (k)
    {
    case 'l': { T x(v); Tp<T>::reg(x); f(x); break; }
    case 'c': { T x(v); Tp<T>::reg(x); const T& y = x; f(y); break; }
    case 'r': { T x(v); f(x); break; }
    case 't': f(T(v)); break;
    case 'e': { T y(-v); Tp<T>::reg(y); f(-y); break; }
    case 'b': { T y(v); Tp<T>::reg(y); f(y * B(1)); break; }
    default: mismatch("kind %c", k);
    }
}
template <class Fn> void withAny(char k, B v, Fn f)
{
    switch (k)
    {
    case 's': f(v); break;
    case 'i': f(int(v)); break;
    case 'u': f(unsigned(v)); break;
    case 'g': f((long long)(v)); break;
    case 'f': f(F(v)); break;
    default: with(k, v, f);
    }
}

template <class X> struct IsPlain : std::is_fundamental<X> {};
static bool lessText(const string& a, const string& b) { return a < b; }

static string format(const std::function<void(std::ostream&)>& put)
{
    string r;
    for (int i = 0; i < 9; ++i)
    {
        std::ostringstream o;
        if (i == 1) o << std::setprecision(17);
        if (i == 2) o << std::scientific << std::setprecision(3);
        if (i == 3) o << std::fixed << std::setprecision(2);
        if (i == 4) o << std::setw(14) << std::setfill('*') << std::left;
        if (i == 5) o << std::showpos << std::uppercase << std::scientific;
        if (i == 6) o << std::hexfloat;
        if (i == 7) o << std::showpoint << std::internal << std::setw(20);
        if (i == 8) o << std::setw(12) << std::fixed;
        put(o);
        o << "|" << o.width();
        r += o.str();
    }
    return r;
}

#define BOTH(f) agree(bt(std::f(x)), bt(xad::f(x)))
#define BOTHV(f) agree(val(std::f(x)), val(xad::f(x)))
struct Un1
{
    string f;
    template <class X> string hashOf(const X& x, std::true_type) const { return std::to_string(std::hash<X>()(x)); }
    template <class X> string hashOf(const X&, std::false_type) const { return "skip"; }
    template <class X> string operator()(const X& x) const
    {
        if (f == "isnan") return BOTH(isnan);
        if (f == "isinf") return BOTH(isinf);
        if (f == "isfinite") return BOTH(isfinite);
        if (f == "isnormal") return BOTH(isnormal);
        if (f == "signbit") return BOTH(signbit);
        if (f == "fpclassify") { return agree(cls(std::fpclassify(x)), cls(xad::fpclassify(x))); }
        if (f == "bool") { if (x) return agree("1", bt(static_cast<bool>(x))); return agree("0", bt(static_cast<bool>(x))); }
        if (f == "not") return agree(bt(!x), bt(!(x && true)));
        if (f == "pick") return agree(x ? "1" : "0", bt(x || false));
        if (f == "floor") return BOTHV(floor);
        if (f == "ceil") return BOTHV(ceil);
        if (f == "trunc") return BOTHV(trunc);
        if (f == "round") return BOTHV(round);
        if (f == "abs") return BOTHV(abs);
        if (f == "fabs") return BOTHV(fabs);
        if (f == "neg") return val(-x);
        if (f == "pos") return val(+x);
        if (f == "value") return val(xad::value(x));
        if (f == "getvalue") return gv(x);
        if (f == "lround") return it(std::lround(x));
        if (f == "llround") return it(std::llround(x));
        if (f == "ilogb")
        {
            int e = std::ilogb(x);
            typedef std::numeric_limits<B> L;
            return e == L::max_exponent - 1 ? "emax" : e == L::min_exponent - 1 ? "emin" : it(e);
        }
        if (f == "frexp")
        {
            int e = 77, g = 78;
            string m = val(std::frexp(x, &e)), n = val(xad::frexp(x, &g));
            frac = agree(m, n);
            return agree(it(e), it(g));
        }
        if (f == "modf")
        {
            B i = 77;
            string a = val(std::modf(x, &i));
            a += " " + tk(i);
            return agree(a, modfActive(x));
        }
        if (f == "toint") return it(static_cast<int>(x));
        if (f == "toshort") return it(static_cast<short>(x));
        if (f == "tochar") return it(int(static_cast<char>(x)));
        if (f == "toschar") return it(int(static_cast<signed char>(x)));
        if (f == "tolong") return it(static_cast<long>(x));
        if (f == "tollong") return it(static_cast<long long>(x));
        if (f == "touint") return it(static_cast<unsigned int>(x));
        if (f == "toushort") return it(static_cast<unsigned short>(x));
        if (f == "touchar") return it(int(static_cast<unsigned char>(x)));
        if (f == "toulong") return it(static_cast<unsigned long>(x));
        if (f == "toullong") return it(static_cast<unsigned long long>(x));
        if (f == "out") { std::ostringstream o; o << x; return o.str(); }
        if (f == "wout") { std::wostringstream o; o << x; std::wstring w = o.str(); return string(w.begin(), w.end()); }
        if (f == "outfmt") return format([&](std::ostream& o) { o << x; });
        if (f == "tostr") return std::to_string(x);
        if (f == "hash") return hashOf(x, std::integral_constant<bool, std::is_same<X, T>::value || std::is_same<X, B>::value>());
        return "unknown function " + f;
    }
    mutable string frac;
    static string cls(int c)
    {
        return c == FP_NAN ? "nan" : c == FP_INFINITE ? "inf" : c == FP_ZERO ? "zero" : c == FP_SUBNORMAL ? "sub" : c == FP_NORMAL ? "normal" : "?";
    }
    static string gv(B x) { return tk(x); }
    template <class X> static string gv(const X& x) { return val(x.getValue()); }
    static string modfActive(B x) { B i; string a = tk(std::modf(x, &i)); return a + " " + tk(i); }
    template <class X> static string modfActive(const X& x) { T i(B(77)); string a = val(xad::modf(x, &i)); return a + " " + val(i); }
};

struct Cmp
{
    int op;
    template <class X, class Y> string operator()(const X& x, const Y& y) const
    {
        switch (op)
        {
        case 0: return bt(x == y);
        case 1: return bt(x != y);
        case 2: return bt(x < y);
        case 3: return bt(x > y);
        case 4: return bt(x <= y);
        default: return bt(x >= y);
        }
    }
};
template <class X, class Y> auto adlCopysign(const X& x, const Y& y) { using std::copysign; return B(base(copysign(x, y))); }
struct Copysign { template <class X, class Y> string operator()(const X& x, const Y& y) const { return agree(val(std::copysign(x, y)), val(adlCopysign(x, y))); } };
struct Fmod { template <class X, class Y> string operator()(const X& x, const Y& y) const { return agree(val(std::fmod(x, y)), val(xad::fmod(x, y))); } };
struct Remainder { template <class X, class Y> string operator()(const X& x, const Y& y) const { return agree(val(std::remainder(x, y)), val(xad::remainder(x, y))); } };
struct Nextafter { template <class X, class Y> string operator()(const X& x, const Y& y) const { return agree(val(std::nextafter(x, y)), val(xad::nextafter(x, y))); } };
struct Remquo
{
    template <class X, class Y> string operator()(const X& x, const Y& y) const
    {
        int q = 77;
        string a = val(std::remquo(x, y, &q));
        return a + " " + it(q < 0 ? -(-q % 8) : q % 8);
    }
};

// two operands, at least one active
template <class Fn, class X> struct Second
{
    const Fn& fn; const X& x; string& got; bool check;
    template <class Y> void operator()(const Y& y) const { go(y, std::integral_constant<bool, std::is_fundamental<X>::value && std::is_fundamental<Y>::value>()); }
    template <class Y> void go(const Y& y, std::false_type) const { silent(check, [&] { got = fn(x, y); }); }
    template <class Y> void go(const Y&, std::true_type) const { mismatch("no active operand"); }
};
template <class Fn, bool ints> struct First
{
    const Fn& fn; char k; B v; string& got; bool check;
    template <class X> void operator()(const X& x) const { go(x, std::integral_constant<bool, ints>()); }
    void start(char k1, B a, std::true_type) const { withAny(k1, a, *this); }
    void start(char k1, B a, std::false_type) const
    {
        if (k1 == 's') (*this)(a);
        else with(k1, a, *this);
    }
    template <class X> void go(const X& x, std::true_type) const { withAny(k, v, Second<Fn, X>{fn, x, got, check}); }
    template <class X> void go(const X& x, std::false_type) const
    {
        if (k == 's') Second<Fn, X>{fn, x, got, check}(v);
        else with(k, v, Second<Fn, X>{fn, x, got, check});
    }
};
template <bool ints, class Fn> string two(const Fn& fn, char k1, B a, char k2, B b, string& plain, bool check = true)
{
    string got;
    First<Fn, ints> f{fn, k2, b, got, check};
    f.start(k1, a, std::integral_constant<bool, ints>());
    plain = fn(a, b);
    return got;
}

template <class C> string readFrom(const string& text, bool registered, bool active)
{
    std::basic_istringstream<C> is(std::basic_string<C>(text.begin(), text.end()));
    string r;
    if (active)
    {
        T x(B(77));
        if (registered) Tp<T>::reg(x);
        silent(true, [&] { is >> x; });
        r = val(x);
    }
    else
    {
        B x(77);
        is >> x;
        r = tk(x);
    }
    r += is.fail() ? " fail" : " good";
    r += is.eof() ? " eof" : " more";
    is.clear();
    std::basic_string<C> rest((std::istreambuf_iterator<C>(is)), std::istreambuf_iterator<C>());
    return r + " rest:" + string(rest.begin(), rest.end());
}

template <class E> void traits(string& r, int vars)
{
    typedef xad::ExprTraits<typename std::remove_reference<E>::type> X;
    const bool rev = !Tp<T>::counts().empty();
    if (!X::isExpr) r += " isExpr";
    if (X::numVariables != vars) r += " numVariables " + std::to_string(X::numVariables) + " for " + std::to_string(vars);
    if (X::isReverse != rev || X::isForward == rev || X::direction != (rev ? xad::DIR_REVERSE : xad::DIR_FORWARD)) r += " direction";
    if (!std::is_same<typename X::nested_type, B>::value) r += " nested_type";
    if (!std::is_same<typename X::value_type, T>::value) r += " value_type";
    if (!std::is_same<typename X::scalar_type, typename T::value_type>::value) r += " scalar_type";
}

static string limitsText()
{
    typedef std::numeric_limits<T> L;
    typedef std::numeric_limits<B> P;
    string r;
#define SAME(m) if (base(L::m) != base(P::m)) r += " " #m;
    SAME(min()) SAME(max()) SAME(lowest()) SAME(epsilon()) SAME(round_error()) SAME(infinity()) SAME(denorm_min())
#undef SAME
#define SAME(m) if (L::m != P::m) r += " " #m;
    SAME(is_specialized) SAME(digits) SAME(digits10) SAME(max_digits10) SAME(is_signed) SAME(is_integer) SAME(is_exact) SAME(radix)
    SAME(min_exponent) SAME(min_exponent10) SAME(max_exponent) SAME(max_exponent10) SAME(has_infinity) SAME(has_quiet_NaN)
    SAME(has_signaling_NaN) SAME(has_denorm) SAME(is_iec559) SAME(is_bounded) SAME(is_modulo) SAME(traps) SAME(tinyness_before) SAME(round_style)
#undef SAME
    if (!std::isnan(base(L::quiet_NaN()))) r += " quiet_NaN";
    // classification of the type
#define TRAIT(t, v) if (std::t<T>::value != (v)) r += " " #t;
    TRAIT(is_floating_point, true) TRAIT(is_arithmetic, true) TRAIT(is_signed, true) TRAIT(is_fundamental, false) TRAIT(is_scalar, false)
    TRAIT(is_pod, false) TRAIT(is_compound, true) TRAIT(is_class, true) TRAIT(is_integral, false)
    TRAIT(is_nothrow_move_constructible, true) TRAIT(is_nothrow_move_assignable, true)
    const bool rev = !Tp<T>::counts().empty();
    TRAIT(is_trivially_copyable, !rev && std::is_trivially_copyable<typename T::value_type>::value)
#undef TRAIT
    T a(B(1)), b(B(2));
    const T& ca = a;
    traits<T>(r, 1);
    traits<decltype(ca)>(r, 1);
    auto e1 = a * b;
    traits<decltype(e1)>(r, 2);
    auto e2 = -(a * b) + a / B(2);
    traits<decltype(e2)>(r, 3);
    auto e3 = max(a, b * b) - 3 * sin(a + 1);
    traits<decltype(e3)>(r, 4);
    typedef xad::ExprTraits<B> X;
    if (X::isExpr || X::numVariables != 0 || X::isForward || X::isReverse || X::direction != xad::DIR_NONE) r += " ExprTraits of plain numbers";
    return r;
}

static string clip(const string& s) { return s.size() > 400 ? s.substr(0, 400) : s; }

int main(int argc, char** argv)
{
    if (argc < 5)
        return 2;
    std::ifstream in(argv[1]);
    long shard = atol(argv[2]), shards = atol(argv[3]);
    Progress prog(argv[4]);
    Tp<T>::counts();
    string line;
    long idx = -1, done = 0;
    int fails = 0;
    std::map<string, int> cmps{{"==", 0}, {"!=", 1}, {"<", 2}, {">", 3}, {"<=", 4}, {">=", 5}};
    string lim = limitsText();
    if (!lim.empty())
    {
        ++fails;
        std::cout << "MISMATCH 0 0 [numeric_limits] different members:" << lim << std::endl;
    }
    while (fails < 3 && std::getline(in, line))
    {
        if (line.empty() || ++idx % shards != shard)
            continue;
        prog.set(idx);
        alarm(60);
        std::vector<string> f(1);
        for (char c : line)
            if (c == '\t') f.emplace_back();
            else f.back() += c;
        // function, kind, value, [kind, value], answer
        try
        {
            string got, plain, want = f.back(), extra, pextra;
            bool nan = false, isB = f[1] == "b";
            auto value = [&](const string& s) { auto p = split(s); B v = mk(p[0], atoi(p[1].c_str()), atol(p[2].c_str())); nan = nan || v != v; return v; };
            if (f[0] == "in" || f[0] == "win")
            {
                bool w = f[0] == "win", reg = f[1] == "l";
                got = w ? readFrom<wchar_t>(f[2], reg, true) : readFrom<char>(f[2], reg, true);
                plain = w ? readFrom<wchar_t>(f[2], reg, false) : readFrom<char>(f[2], reg, false);
                if (f[3] != "free")
                {
                    string e = f[3] + " good ", r = " rest:" + f[4];
                    if (got.substr(0, e.size()) != e || got.size() < r.size() || got.substr(got.size() - r.size()) != r)
                        mismatch("read %s, expected %s%s", got.c_str(), e.c_str(), r.c_str());
                }
                want = "free";
            }
            else if (f.size() == 4)
            {
                B v = value(f[2]);
                Un1 u{f[0]};
                if (want != "skip")
                {
                    with(f[1][0], v, [&](const auto& x) { silent(true, [&] { got = u(x); }); });
                    extra = u.frac;
                    u.frac = "";
                    plain = u(v);
                    pextra = u.frac;
                    if (got == "skip") plain = want = "skip";
                    if (extra != pextra)
                        mismatch("mantissa is %s, plain call gives %s", extra.c_str(), pextra.c_str());
                }
                else
                    got = plain = "skip";
            }
            else
            {
                B a = value(f[2]), b = value(f[4]);
                char k1 = f[1][0], k2 = f[3][0];
                isB = isB || k2 == 'b';
                auto c = cmps.find(f[0]);
                if (c != cmps.end()) got = two<true>(Cmp{c->second}, k1, a, k2, b, plain);
                else if (f[0] == "copysign") got = two<false>(Copysign(), k1, a, k2, b, plain, false);
                else if (f[0] == "fmod") got = two<true>(Fmod(), k1, a, k2, b, plain);
                else if (f[0] == "remainder") got = two<true>(Remainder(), k1, a, k2, b, plain);
                else if (f[0] == "remquo") got = two<true>(Remquo(), k1, a, k2, b, plain);
                else if (f[0] == "nextafter") got = two<false>(Nextafter(), k1, a, k2, b, plain);
                else mismatch("unknown function %s", f[0].c_str());
            }
            // the sign of a NaN that results from an operation is not determined; remquo has no quotient then
            bool res = f[0] == "fmod" || f[0] == "remainder" || f[0] == "remquo" || f[0] == "nextafter";
            auto norm = [&](string s) {
                if (res && s.substr(0, 4) == "nan ") return string("nan");
                if (nan && isB)
                {
                    if (f[0] == "signbit") return string("any sign");
                    for (std::size_t p; (p = s.find("nan 1")) != string::npos;) s.replace(p, 5, "nan 0");
                    if (f[0] == "out" || f[0] == "wout" || f[0] == "outfmt" || f[0] == "tostr" || f[0] == "copysign" || f[0] == "hash") return string("nan");
                }
                return s;
            };
            if (norm(got) != norm(plain))
                mismatch("active: %s, plain: %s", clip(got).c_str(), clip(plain).c_str());
            if (want != "free" && norm(got) != norm(want))
                mismatch("active: %s, specification: %s", clip(got).c_str(), clip(want).c_str());
        }
        catch (Mismatch& m)
        {
            ++fails;
            std::cout << "MISMATCH " << idx << " 0 [" << line << "] " << m.what << std::endl;
        }
        catch (std::exception& e)
        {
            ++fails;
            std::cout << "MISMATCH " << idx << " 0 [" << line << "] exception " << e.what() << std::endl;
        }
        ++done;
    }
    prog.set(-1);
    std::cout << "DONE " << done << " " << done << std::endl;
    return fails ? 1 : 0;
}
