// Replays behaviours of spec/Tape.tla into xad::Tape<REAL_T>.
#include "drv.hpp"
#include <atomic>
#include <mutex>
#include <thread>
#include <algorithm>
#include <memory>
#include <set>
#include <map>
#include <csignal>

#ifndef REAL_T
#define REAL_T double
#endif
typedef REAL_T Real;
typedef xad::Tape<Real> Tape;
typedef Tape::active_type AD;
typedef xad::ExprTraits<AD>::nested_type Num;  // double or float
typedef Tape::slot_type Slot;

#ifdef NDEBUG
static const bool DEBUG = false;
#else
static const bool DEBUG = true;
#endif

// Scalar compound assignment and ++/-- are not provided (ambiguous or ill-formed) for variables of
// higher order; there the same call is spelled out.
template <class A, class N>
static typename std::enable_if<std::is_floating_point<Real>::value && sizeof(A), A&>::type mulc(A& x, const N& c) { return x *= c; }
template <class A, class N>
static typename std::enable_if<!std::is_floating_point<Real>::value && sizeof(A), A&>::type mulc(A& x, const N& c) { return x = x * c; }
template <class A, class N>
static typename std::enable_if<std::is_floating_point<Real>::value && sizeof(A), A&>::type addc(A& x, const N& c, bool minus) { return minus ? x -= -c : x += c; }
template <class A, class N>
static typename std::enable_if<!std::is_floating_point<Real>::value && sizeof(A), A&>::type addc(A& x, const N& c, bool minus) { return minus ? x = x - (-c) : x = x + c; }
template <class A, class N>
static typename std::enable_if<std::is_floating_point<Real>::value && sizeof(A)>::type addv(A& x, const N& c, bool minus) { addc(x, c, minus); }
template <class A, class N>
static typename std::enable_if<!std::is_floating_point<Real>::value && sizeof(A)>::type addv(A& x, const N& c, bool) { xad::value(x) = Real(xad::value(x) + c); }
template <class A>
static typename std::enable_if<std::is_floating_point<Real>::value && sizeof(A), A&>::type pre(A& x, bool minus) { return minus ? --x : ++x; }
template <class A>
static typename std::enable_if<!std::is_floating_point<Real>::value && sizeof(A), A&>::type pre(A& x, bool minus) { return addc(x, Num(minus ? -1 : 1), false); }
template <class A>
static typename std::enable_if<std::is_floating_point<Real>::value && sizeof(A), double>::type post(A& x) { return num(x++); }
template <class A>
static typename std::enable_if<!std::is_floating_point<Real>::value && sizeof(A), double>::type post(A& x) { A r = x; addc(x, Num(1), false); return num(r); }

// With TANGENT_SEEDS all adjoints live in the tangent component of the tape's scalar type: their
// values are zero throughout, and only their derivatives carry what the specification says.
#ifdef TANGENT_SEEDS
static Real dmk(Num v)
{
    Real r(Num(0));
    xad::derivative(r) = v;
    return r;
}
static double dnum(const Real& r)
{
    if (xad::value(r) != 0)
        mm1("adjoint value is not zero");
    return xad::derivative(r);
}
#else
static Real dmk(Num v) { return Real(v); }
static double dnum(const Real& r) { return num(r); }
#endif

struct CallbackError
{
};

static thread_local std::map<int, int> g_destroyed;  // callback id -> times destroyed
static thread_local std::vector<int> g_calls;        // checkpoint callbacks invoked

struct Owned : xad::CheckpointCallback<Tape>
{
    int id;
    explicit Owned(int i) : id(i) {}
    ~Owned() { ++g_destroyed[id]; }
    void computeAdjoint(Tape*) {}
};

struct Lin : xad::CheckpointCallback<Tape>
{
    int id, kind;
    Slot out;
    std::vector<std::pair<Num, Slot> > in;
    std::vector<Num> inval;

    // y = sum m_k * x_k, recorded in one of several ways
    static AD record(const std::vector<std::pair<Num, Slot> >& in, std::vector<AD>& x, int variant)
    {
        AD y = Num(0);
        for (std::size_t k = 0; k < in.size(); ++k)
        {
            if (variant & 1)
            {
                AD t = x[k] * in[k].first;
                AD u = t;
                y += u;
            }
            else
                y = y + in[k].first * x[k];
        }
        return y;
    }

    void nested(Tape* tape, const Real& adj, int variant, bool incInside, Num share)
    {
        std::vector<AD> x(in.size());
        for (std::size_t k = 0; k < in.size(); ++k)
        {
            x[k] = inval[k];
            tape->registerInput(x[k]);
        }
        std::vector<Real> g(in.size());
        {
            xad::ScopedNestedRecording<Tape> nr(tape);
            if (nr.getTape() != tape)
                mm1("nested recording on another tape");
            AD y = record(in, x, variant);
            tape->registerOutput(y);
            y.setDerivative(adj * share);
            nr.computeAdjoints();
            for (std::size_t k = 0; k < in.size(); ++k)
            {
                g[k] = x[k].getDerivative();
                if (incInside)
                    nr.incrementAdjoint(in[k].second, g[k]);
            }
        }
        if (!incInside)
            for (std::size_t k = 0; k < in.size(); ++k) tape->incrementAdjoint(in[k].second, g[k]);
    }

    void computeAdjoint(Tape* tape)
    {
        g_calls.push_back(id);
        Real adj = tape->getAndResetOutputAdjoint(out);
        switch (kind)
        {
        case 1:
            for (std::size_t k = 0; k < in.size(); ++k)
                tape->incrementAdjoint(in[k].second, adj * in[k].first);
            break;
        case 2: nested(tape, adj, 0, true, Num(1)); break;
        case 3:  // a checkpoint inside of the nested recording
        {
            std::vector<AD> x(in.size());
            for (std::size_t k = 0; k < in.size(); ++k)
            {
                x[k] = inval[k];
                tape->registerInput(x[k]);
            }
            std::vector<Real> g(in.size());
            {
                xad::ScopedNestedRecording<Tape> nr(tape);
                AD pre = Num(0);
                std::vector<AD> x2;
                for (std::size_t k = 0; k < in.size(); ++k) x2.push_back(x[k] * Num(1));
                Num v = 0;
                for (std::size_t k = 0; k < in.size(); ++k) v += in[k].first * inval[k];
                AD y = v;
                tape->registerOutput(y);
                Lin inner;
                inner.id = -1;
                inner.kind = (id % 2) ? 1 : 2;
                inner.out = y.getSlot();
                for (std::size_t k = 0; k < in.size(); ++k)
                {
                    inner.in.push_back(std::make_pair(in[k].first, x2[k].getSlot()));
                    inner.inval.push_back(inval[k]);
                }
                tape->insertCallback(&inner);
                AD z = y * Num(1);
                z.setDerivative(adj);
                nr.computeAdjoints();
                if (g_calls.empty() || g_calls.back() != -1)
                    mm1("checkpoint inside nested recording not called");
                g_calls.pop_back();
                for (std::size_t k = 0; k < in.size(); ++k) g[k] = x[k].getDerivative();
            }
            for (std::size_t k = 0; k < in.size(); ++k) tape->incrementAdjoint(in[k].second, g[k]);
            break;
        }
        case 4:  // two nested recordings one after the other
            nested(tape, adj, 1, false, Num(2));
            nested(tape, adj, 0, true, Num(-1));
            break;
        case 5:  // records on the tape itself, without a nested recording
        {
            std::vector<AD> x(in.size());
            for (std::size_t k = 0; k < in.size(); ++k)
            {
                x[k] = inval[k];
                tape->registerInput(x[k]);
            }
            AD y = record(in, x, 1);
            AD z = y * y;
            for (std::size_t k = 0; k < in.size(); ++k)
                tape->incrementAdjoint(in[k].second, adj * in[k].first);
            break;
        }
        case 6:  // nested within nested
        {
            for (std::size_t k = 0; k < in.size(); ++k)
            {
                AD x = inval[k];
                tape->registerInput(x);
                Real g;
                {
                    xad::ScopedNestedRecording<Tape> nr(tape);
                    AD y = x * in[k].first;
                    tape->registerOutput(y);
                    y.setDerivative(adj);
                    nr.computeAdjoints();
                    g = x.getDerivative();
                    y = y * y + x;
                }
                {
                    // recording that is ended without a sweep
                    xad::ScopedNestedRecording<Tape> nr(tape);
                    AD y = x * x;
                    AD w = y + x;
                }
                tape->incrementAdjoint(in[k].second, g);
            }
            break;
        }
        case 7:  // a nested recording with checkpoints that is ended without a sweep, and then a longer one
        {
            std::vector<AD> x(in.size());
            for (std::size_t k = 0; k < in.size(); ++k)
            {
                x[k] = inval[k];
                tape->registerInput(x[k]);
            }
            Lin dead[3];
            std::size_t calls = g_calls.size();
            {
                xad::ScopedNestedRecording<Tape> nr(tape);
                AD y = Num(0);
                for (int j = 0; j < 3; ++j)
                {
                    dead[j].id = -7;
                    dead[j].kind = 1;
                    AD z = Num(1);
                    tape->registerOutput(z);
                    dead[j].out = z.getSlot();
                    if (id % 2 && j == 0)
                        tape->insertCallback(&dead[j]);
                    if (in.size())
                        y += x[0] * z;
                    tape->insertCallback(&dead[j]);
                }
            }
            std::vector<Real> g(in.size());
            {
                xad::ScopedNestedRecording<Tape> nr(tape);
                AD s = Num(0);
                for (int j = 0; j < 6; ++j)
                    for (std::size_t k = 0; k < in.size(); ++k) s += x[k] * Num(2);
                AD y = record(in, x, 1);
                tape->registerOutput(y);
                y.setDerivative(adj);
                nr.computeAdjoints();
                for (std::size_t k = 0; k < in.size(); ++k) g[k] = x[k].getDerivative();
            }
            if (g_calls.size() != calls)
                mm1("checkpoint of an ended nested recording was called");
            for (std::size_t k = 0; k < in.size(); ++k) tape->incrementAdjoint(in[k].second, g[k]);
            break;
        }
        case 8:  // throws out of a nested recording
        {
            xad::ScopedNestedRecording<Tape> nr(tape);
            AD x = Num(2);
            tape->registerInput(x);
            AD y = x * x;
            if (id % 2)
            {
                y.setDerivative(dmk(Num(1)));
                nr.computeAdjoints();
            }
            throw CallbackError();
        }
        case 9:  // leaves several nested recordings open
            for (int j = 0; j < 2 + id % 2; ++j)
            {
                tape->newNestedRecording();
                AD x = Num(2);
                tape->registerInput(x);
                AD y = x * x + Num(1);
                Lin c;
                tape->insertCallback(&c);
            }
            throw CallbackError();
        default: mm1("unknown callback kind");
        }
    }
};

struct World
{
    std::vector<std::unique_ptr<AD> > h;
    std::vector<std::unique_ptr<Tape> > t;
    struct Mk
    {
        Tape::position_type p;
    };
    std::vector<Mk> mk;
    std::vector<std::unique_ptr<Lin> > ck;
    int cbn = 0;
    World() : h(64), t(8), mk(8) {}
    ~World()
    {
        Tape::deactivateAll();
        h.clear();
        t.clear();
    }
};

static int I(const std::string& s) { return atoi(s.c_str()); }

template <class F>
static void withExpr(World& w, const std::string& f, int a, int b, Num ca, Num cb, F fn)
{
    AD* A = w.h[a].get();
    AD* B = w.h[b] ? w.h[b].get() : nullptr;
    if (f == "lin")
        fn(ca * *A + cb * *B);
    else if (f == "mul")
        fn(*A * *B);
    else if (f == "poly")
        fn(*A * *B + ca * *A);
    else if (f == "neg")
        fn(-*A);
    else if (f == "rsub")
        fn(ca - *A);
    else if (f == "one")
        fn(ca * *A);
    else
        mm1("bad form");
}
struct AsgF
{
    AD* x;
    template <class E>
    void operator()(const E& e)
    {
        AD& r = (*x = e);
        if (&r != x)
            mm1("assignment does not return its target");
    }
};
struct CtrF
{
    std::unique_ptr<AD>* x;
    template <class E>
    void operator()(const E& e)
    {
        x->reset(new AD(e));
    }
};

// returns observed result as text
static std::string apply(World& w, const std::vector<std::string>& o)
{
    const std::string& op = o[0];
    auto H = [&](int k) -> AD& { return *w.h[I(o[k])]; };
    auto N = [&](int k) { return Num(I(o[k])); };
    auto TP = [&](int k) -> Tape& { return *w.t[I(o[k])]; };
    char b[64];
    if (op == "new")
        w.h[I(o[1])].reset(new AD(N(2)));
    else if (op == "reg")
        Tape::getActive()->registerInput(H(1));
    else if (op == "rgo")
        Tape::getActive()->registerOutput(H(1));
    else if (op == "asg")
    {
        AsgF f = {w.h[I(o[1])].get()};
        withExpr(w, o[2], I(o[3]), I(o[4]), N(5), N(6), f);
    }
    else if (op == "ctr")
    {
        std::unique_ptr<AD> x;
        CtrF f = {&x};
        withExpr(w, o[2], I(o[3]), I(o[4]), N(5), N(6), f);
        w.h[I(o[1])] = std::move(x);
    }
    else if (op == "set")
        H(1) = N(2);
    else if (op == "cpa")
        H(1) = (const AD&)H(2);
    else if (op == "cpc")
        w.h[I(o[1])].reset(new AD((const AD&)H(2)));
    else if (op == "cmp")
    {
        AD& x = H(1);
        AD* r = nullptr;
        if (o[2] == "add")
            r = &(x += H(3));
        else if (o[2] == "sub")
            r = &(x -= H(3));
        else if (o[2] == "mul")
            r = &(x *= H(3));
        else if (o[2] == "mulc")
            r = &mulc(x, N(4));
        else if (o[2] == "pre")
            r = &pre(x, false);
        else if (o[2] == "prd")
            r = &pre(x, true);
        if (r != &x)
            mm1("compound assignment does not return its target");
    }
    else if (op == "adc")
    {
        // += and -= with a scalar
        addv(H(1), N(2), I(o[2]) % 2 == 0);
    }
    else if (op == "pin")
    {
        double v = post(H(1));
        snprintf(b, sizeof b, "val %g", v + 0.0);
        return b;
    }
    else if (op == "rpt")
    {
        AD &x = H(1), &y = H(2);
        for (long k = atol(o[3].c_str()); k > 0; --k) x = x + y;
    }
    else if (op == "mvc")
        w.h[I(o[1])].reset(new AD(std::move(H(2))));
    else if (op == "mva")
        H(1) = std::move(H(2));
    else if (op == "swp")
        std::swap(H(1), H(2));
    else if (op == "del")
        w.h[I(o[1])].reset();
    else if (op[0] == 'v')
    {
        int lo = I(o[1]), hi = I(o[2]);
        std::vector<AD> v;
        if (op == "vin")
        {
            // the inserted variable must stay where it is while the others are moved
            int a = I(o[3]);
            for (int i = lo; i <= hi; ++i)
                if (i != a)
                    v.push_back(std::move(*w.h[i]));
                else
                    v.emplace_back(std::move(*w.h[i]));
            if (a >= lo && a <= hi)
            {
                std::size_t pos = a - lo;
                if (lo % 2)
                    v.insert(v.begin(), v[pos]);
                else
                {
                    v.reserve(v.size() + 3);
                    v.insert(v.begin(), v[pos]);
                }
            }
            else
                v.insert(v.begin(), *w.h[a]);
            ++hi;
            w.h[hi].reset(new AD());
        }
        else
        {
            for (int i = lo; i <= hi; ++i) v.push_back(std::move(*w.h[i]));
            if (op == "vrt")
                std::rotate(v.begin(), v.begin() + 1, v.end());
            else if (op == "vrv")
                std::reverse(v.begin(), v.end());
            else if (op == "vst")
                std::stable_sort(v.begin(), v.end());
            else if (op == "ver")
            {
                v.erase(v.begin());
                w.h[hi--].reset();
            }
        }
        if (int(v.size()) != hi - lo + 1)
            mm1("vector has the wrong size");
        for (int i = lo; i <= hi; ++i) *w.h[i] = std::move(v[i - lo]);
    }
    else if (op == "sed")
    {
        if (I(o[2]) % 2)
            derivative(H(1)) = dmk(N(2));
        else
            H(1).setDerivative(dmk(N(2)));
    }
    else if (op == "inc")
        derivative(H(1)) = derivative(H(1)) + dmk(N(2));
    else if (op == "get")
    {
        const AD& c = H(1);
        snprintf(b, sizeof b, "val %g", dnum(derivative(c)) + 0.0);
        return b;
    }
    else if (op == "tgt")
    {
        const Tape& c = TP(2);
        snprintf(b, sizeof b, "val %g", dnum(c.getDerivative(H(1).getSlot())) + 0.0);
        return b;
    }
    else if (op == "nrc")
        TP(1).newRecording();
    else if (op == "cla")
        TP(1).clearAll();
    else if (op == "cld")
        TP(1).clearDerivatives();
    else if (op == "adj" || op == "adt")
    {
        g_calls.clear();
        if (op == "adj")
            TP(1).computeAdjoints();
        else
            TP(2).computeAdjointsTo(w.mk[I(o[1])].p);
        std::string r = "swp";
        for (int c : g_calls)
        {
            snprintf(b, sizeof b, " %d", c);
            r += b;
        }
        return r;
    }
    else if (op == "mrk")
        w.mk[I(o[1])].p = TP(2).getPosition();
    else if (op == "rst")
        TP(2).resetTo(w.mk[I(o[1])].p);
    else if (op == "cda")
        TP(2).clearDerivativesAfter(w.mk[I(o[1])].p);
    else if (op == "ckp")
    {
        int i = I(o[1]), a = I(o[2]), bb = I(o[3]), kind = I(o[6]);
        Num ca = N(4), cb = N(5);
        std::unique_ptr<Lin> c(new Lin);
        c->id = int(w.ck.size()) + 1;
        c->kind = kind;
        Real va = xad::value(*w.h[a]), vb = xad::value(*w.h[bb]);
        if (w.h[a]->shouldRecord())
        {
            c->in.push_back(std::make_pair(ca, w.h[a]->getSlot()));
            c->inval.push_back(Num(num(va)));
        }
        if (w.h[bb]->shouldRecord())
        {
            c->in.push_back(std::make_pair(cb, w.h[bb]->getSlot()));
            c->inval.push_back(Num(num(vb)));
        }
        if (!w.h[i])
            w.h[i].reset(new AD());
        Real v = ca * va + cb * vb;
        xad::value(*w.h[i]) = v;
        Tape* t = Tape::getActive();
        t->registerOutput(*w.h[i]);
        c->out = w.h[i]->getSlot();
        t->insertCallback(c.get());
        w.ck.push_back(std::move(c));
    }
    else if (op == "tnw")
        w.t[I(o[1])].reset(new Tape(I(o[2]) == 1));
    else if (op == "act")
    {
        if (I(o[1]) % 2)
            TP(1).activate();
        else
            Tape::setActive(&TP(1));
    }
    else if (op == "dea")
        TP(1).deactivate();
    else if (op == "daa")
        Tape::deactivateAll();
    else if (op == "tdl")
        w.t[I(o[1])].reset();
    else if (op == "tmv")
        w.t[I(o[1])].reset(new Tape(std::move(TP(2))));
    else if (op == "tma")
    {
        Tape& l = TP(1);
        Tape& r = TP(2);
        l = std::move(r);
    }
    else if (op == "cbp")
        TP(1).pushCallback(new Owned(++w.cbn));
    else if (op == "cbl")
    {
        snprintf(b, sizeof b, "val %d", static_cast<Owned*>(TP(1).getLastCallback())->id);
        return b;
    }
    else if (op == "cbo")
    {
        Owned* p = nullptr;
        if (TP(1).haveCallbacks())
            p = static_cast<Owned*>(TP(1).getLastCallback());
        TP(1).popCallback();
        delete p;
    }
    else if (op == "bad")
    {
        const Tape& c = TP(1);
        if (o[2] == "bnd")
        {
            // the accessors agree on which slots exist
            int rejected = 0;
            for (Slot s = 0; rejected < 3; ++s)
            {
                bool inc = true, gra = true, der = true, set = true;
                try
                {
                    TP(1).incrementAdjoint(s, Real(Num(0)));
                }
                catch (xad::OutOfRange&)
                {
                    inc = false;
                }
                try
                {
                    Real old = TP(1).getAndResetOutputAdjoint(s);
                    if (inc)
                        TP(1).incrementAdjoint(s, old);
                }
                catch (xad::OutOfRange&)
                {
                    gra = false;
                }
                try
                {
                    Real old = TP(1).derivative(s);
                    if (inc && gra)
                        TP(1).setDerivative(s, old);
                }
                catch (xad::OutOfRange&)
                {
                    der = false;
                }
                try
                {
                    if (!der)
                        TP(1).setDerivative(s, Real(Num(0)));
                }
                catch (xad::OutOfRange&)
                {
                    set = false;
                }
                if (inc != gra || (der && !inc) || (set && !der))
                    mismatch("accessors disagree on whether slot %u exists: increment %d, get-and-reset %d, derivative %d, set %d",
                             s, inc, gra, der, set);
                rejected += !inc;
            }
            throw xad::OutOfRange("");
        }
        const Slot slots[] = {1000000u, Tape::INVALID_SLOT, Tape::INVALID_SLOT - 1u};
        int thrown = 0;
        for (Slot s : slots)
        {
            try
            {
                if (o[2] == "der")
                    TP(1).derivative(s);
                else if (o[2] == "cder")
                    c.getDerivative(s);
                else if (o[2] == "setd")
                    TP(1).setDerivative(s, Real(Num(3)));
                else if (o[2] == "inca")
                    TP(1).incrementAdjoint(s, Real(Num(3)));
                else if (o[2] == "gra")
                    TP(1).getAndResetOutputAdjoint(s);
            }
            catch (xad::OutOfRange&)
            {
                ++thrown;
            }
        }
        if (thrown == 3)
            throw xad::OutOfRange("");
        return thrown ? "partly" : "ok";
    }
    else
        mm1("unknown call " + op);
    return "ok";
}

static std::string perform(World& w, const std::vector<std::string>& o)
{
    try
    {
        return apply(w, o);
    }
    catch (xad::TapeAlreadyActive&)
    {
        return "exc AlreadyActive";
    }
    catch (xad::NoTapeException&)
    {
        return "exc NoTape";
    }
    catch (xad::DerivativesNotInitialized&)
    {
        return "exc DerivNotInit";
    }
    catch (xad::OutOfRange&)
    {
        return "exc OutOfRange";
    }
    catch (CallbackError&)
    {
        return "exc Callback";
    }
    catch (Mismatch&)
    {
        throw;
    }
    catch (std::exception& e)
    {
        return std::string("exc other ") + e.what();
    }
}

static std::string join(const std::vector<std::string>& v, std::size_t a = 0)
{
    std::string r;
    for (std::size_t i = a; i < v.size(); ++i) r += (i > a ? " " : "") + v[i];
    return r;
}

static bool resultOK(const std::string& want, const std::string& got)
{
    if (want == got)
        return true;
    if (want.compare(0, 4, "cut ") == 0)
        return got == "val 0" || got == "exc OutOfRange" || got == "val " + want.substr(4);
    if (want == "dexc any")
        return got == "exc OutOfRange" || got == "exc DerivNotInit";
    if (want.compare(0, 5, "dexc ") == 0)
        return got == "exc " + want.substr(5);
    return false;
}

static void observe(World& w, const std::vector<std::string>& s, const std::vector<std::string>& d)
{
    // s: NH (st v tape)* NT (st n cb len)* act k
    std::size_t p = 0;
    int nh = I(s[p++]);
    std::map<int, std::set<Slot> > used;
    std::vector<int> htape(nh + 1);
    for (int i = 1; i <= nh; ++i)
    {
        int st = I(s[p++]);
        double v = I(s[p++]);
        int t = I(s[p++]);
        htape[i] = t;
        if ((st != 0) != bool(w.h[i]))
            mm1("driver state");
        if (!st)
            continue;
        if (st == 1 && num(*w.h[i]) != v)
            mismatch("value of variable %d is %g, expected %g", i, num(*w.h[i]), v);
        bool reg = w.h[i]->shouldRecord();
        if (reg != (t != 0))
            mismatch("variable %d is %sregistered, expected %s", i, reg ? "" : "not ", t ? "yes" : "no");
        if (reg && !used[t].insert(w.h[i]->getSlot()).second)
            mismatch("variable %d shares slot %u with another live variable", i, w.h[i]->getSlot());
    }
    int nt = I(s[p++]);
    for (int t = 1; t <= nt; ++t)
    {
        int st = I(s[p++]);
        unsigned n = I(s[p++]);
        unsigned cb = I(s[p++]);
        p++;
        if (st != 1)
        {
            if (st == 2 && w.t[t]->isActive())
                mismatch("moved-from tape %d is active", t);
            continue;
        }
        const Tape& tp = *w.t[t];
        if (tp.getNumVariables() != n)
            mismatch("tape %d reports %u variables, expected %u", t, tp.getNumVariables(), n);
        if (tp.getNumCallbacks() != cb || tp.haveCallbacks() != (cb > 0))
            mismatch("tape %d reports %u callbacks, expected %u", t, tp.getNumCallbacks(), cb);
    }
    int act = I(s[p++]);
    Tape* ex = act ? w.t[act].get() : nullptr;
    if (Tape::getActive() != ex)
        mismatch("active tape is not tape %d", act);
    for (int t = 1; t <= nt; ++t)
        if (w.t[t] && w.t[t]->isActive() != (t == act))
            mismatch("isActive of tape %d wrong", t);
    unsigned k = I(s[p++]);
    if (g_destroyed.size() != k)
        mismatch("%u callbacks destroyed, expected %u", unsigned(g_destroyed.size()), k);
    for (auto& x : g_destroyed)
        if (x.second != 1)
            mismatch("callback %d destroyed %d times", x.first, x.second);
    // adjoints
    for (int i = 1; i <= nh && !d.empty(); ++i)
    {
        int have = I(d[2 * (i - 1)]);
        double v = I(d[2 * (i - 1) + 1]);
        if (!have)
            continue;
        const Tape& tp = *w.t[htape[i]];
        double g = dnum(tp.getDerivative(w.h[i]->getSlot()));
        if (g != v)
            mismatch("derivative of variable %d is %g, expected %g", i, g, v);
    }
}

int main(int argc, char** argv)
{
    if (argc < 5)
        return 2;
    std::ifstream in(argv[1]);
    long shard = atol(argv[2]), shards = atol(argv[3]);
    Progress prog(argv[4]);
    std::string line;
    long idx = -1;
    std::atomic<long> done(0), steps(0);
    std::atomic<int> fails(0);
    std::mutex outm;
    // THREADS: several threads work on different behaviours at the same time
    int threads = getenv("THREADS") ? atoi(getenv("THREADS")) : 1;
    std::vector<std::pair<long, std::vector<std::string> > > all;
    std::vector<std::string> beh;
    auto runOne = [&](long idx, const std::vector<std::string>& beh)
    {
        alarm(60);
        int step = 0;
        std::string last;
        g_destroyed.clear();
        try
        {
            World w;
            for (std::size_t k = 0; k < beh.size(); ++k)
            {
                const std::string& l = beh[k];
                if (l[0] == 'S')
                {
                    // S norec ; op ; ret
                    std::size_t a = l.find(';'), b = l.find(';', a + 1);
                    bool norec = l[2] == '1';
                    std::vector<std::string> o = split(l.substr(a + 1, b - a - 1));
                    std::string want = join(split(l.substr(b + 1)));
                    ++step;
                    last = join(o);
                    if (!DEBUG && want.compare(0, 4, "dexc") == 0)
                        continue;
                    std::vector<unsigned> before, after;
                    if (norec)
                        for (auto& t : w.t)
                            if (t)
                            {
                                before.push_back(t->getPosition());
                                before.push_back(t->getNumOperations());
                                before.push_back(t->getNumStatements());
                            }
                    std::string got = perform(w, o);
                    ++steps;
                    if (getenv("VERIF_TRACE"))
                    {
                        std::cerr << last << " -> " << got << "   |";
                        for (std::size_t i = 0; i < w.h.size(); ++i)
                            if (w.h[i])
                            {
                                std::cerr << " " << i << "=" << num(*w.h[i]);
                                if (w.h[i]->shouldRecord())
                                    std::cerr << "@" << w.h[i]->getSlot();
                            }
                        std::cerr << std::endl;
                    }
                    if (!resultOK(want, got))
                        mm1("call returned '" + got + "', expected '" + want + "'");
                    if (norec)
                    {
                        for (auto& t : w.t)
                            if (t)
                            {
                                after.push_back(t->getPosition());
                                after.push_back(t->getNumOperations());
                                after.push_back(t->getNumStatements());
                            }
                        if (before != after)
                            mm1("call recorded on a tape although it must not");
                    }
                }
                else if (l[0] == 'D')
                {
                    std::vector<std::string> o = split(l);
                    double g = dnum(w.h[I(o[1])]->getDerivative());
                    if (g != I(o[2]))
                        mismatch("derivative of variable %d is %g, expected %d", I(o[1]), g, I(o[2]));
                }
                else if (l[0] == 'O')
                {
                    std::size_t a = l.find(';');
                    observe(w, split(l.substr(1, a - 1)), split(l.substr(a + 1)));
                }
            }
            last = "(end)";
            int expectOwned = w.cbn;
            Tape::deactivateAll();
            w.h.clear();
            w.t.clear();
            if (int(g_destroyed.size()) != expectOwned)
                mismatch("%d of %d owned callbacks destroyed at the end", int(g_destroyed.size()), expectOwned);
            for (auto& x : g_destroyed)
                if (x.second != 1)
                    mismatch("callback %d destroyed %d times", x.first, x.second);
        }
        catch (Mismatch& m)
        {
            ++fails;
            std::lock_guard<std::mutex> g(outm);
            std::cout << "MISMATCH " << idx << " " << step << " [" << last << "] " << m.what << std::endl;
        }
        catch (std::exception& e)
        {
            ++fails;
            std::lock_guard<std::mutex> g(outm);
            std::cout << "MISMATCH " << idx << " " << step << " [" << last << "] exception " << e.what() << std::endl;
        }
        Tape::deactivateAll();
        ++done;
    };
    while (std::getline(in, line))
    {
        if (line.empty())
            continue;
        if (line[0] == 'B')
        {
            ++idx;
            beh.clear();
        }
        else if (line[0] == 'E')
        {
            if (idx % shards == shard)
            {
                if (threads > 1)
                {
                    all.emplace_back(idx, std::move(beh));
                    continue;
                }
                prog.set(idx);
                runOne(idx, beh);
                if (fails >= 3)
                    break;
            }
        }
        else if (idx % shards == shard)
            beh.push_back(line);
    }
    if (threads > 1 && !all.empty())
    {
        prog.set(all[0].first);
        std::vector<std::thread> ts;
        for (int k = 0; k < threads; ++k)
            ts.emplace_back([&, k]() {
                for (std::size_t i = k; i < all.size() && fails < 3; i += threads) runOne(all[i].first, all[i].second);
            });
        for (auto& t : ts) t.join();
    }
    prog.set(-1);
    std::cout << "DONE " << done << " " << steps << std::endl;
    return fails ? 1 : 0;
}
