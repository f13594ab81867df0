// Replays behaviours of Active.tla: calls of several threads on tapes of several types.
//   turn: the calls are made one after another, each by its thread, and every thread reports what is active
//   free: every thread makes its own calls without waiting for the others
#include "drv.hpp"
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>

typedef std::vector<std::string> Op;
static int I(const std::string& s) { return atoi(s.c_str()); }

struct Box
{
    virtual ~Box() {}
    char ty;
    virtual const void* addr() = 0;
    virtual bool isActive() = 0;
    virtual void activate(bool viaSet) = 0;
    virtual void deactivate() = 0;
    virtual Box* moveNew() = 0;
    virtual void moveTo(Box& u) = 0;
    virtual void destroy(bool late) = 0;
    virtual void start(int k, int a, int b) = 0;
    virtual double op(const std::string& f, int i, int j, int w) = 0;
    virtual std::vector<double> sweep(int i) = 0;
    virtual double value(int i) = 0;
    virtual int statements() = 0;
    virtual std::size_t memory() = 0;
};

template <class R>
struct BoxT : Box
{
    typedef xad::AReal<R> A;
    typedef xad::Tape<R> Tape;
    std::unique_ptr<Tape> t;
    std::vector<std::unique_ptr<A>> vs;
    std::vector<typename Tape::slot_type> in;
    int base = 0;
    BoxT(char c, bool on) : t(new Tape(on)) { ty = c; }
    BoxT(char c, Tape&& o) : t(new Tape(std::move(o))) { ty = c; }
    const void* addr() { return t.get(); }
    bool isActive() { return t->isActive(); }
    void activate(bool viaSet) { viaSet ? Tape::setActive(t.get()) : t->activate(); }
    void deactivate() { t->deactivate(); }
    void take(BoxT& o)
    {
        vs = std::move(o.vs);
        o.vs.clear();
        in = o.in;
        base = o.base;
        o.in.clear();
        o.base = 0;
    }
    Box* moveNew()
    {
        BoxT* u = new BoxT(ty, std::move(*t));
        u->take(*this);
        return u;
    }
    void moveTo(Box& u_)
    {
        BoxT& u = static_cast<BoxT&>(u_);
        if (&u == this)
        {
            Tape& self = *t;
            *t = std::move(self);
            return;
        }
        u.vs.clear();
        *u.t = std::move(*t);
        u.take(*this);
    }
    void destroy(bool late)
    {
        if (!late)
            vs.clear();
        t.reset();
        vs.clear();
    }
    void start(int k, int a, int b)
    {
        vs.clear();
        in.clear();
        for (int i = 0; i < k; ++i)
        {
            vs.emplace_back(new A(double(i ? b : a)));
            t->registerInput(*vs.back());
            in.push_back(vs.back()->getSlot());
        }
        vs.emplace_back(new A(double(b + 1)));
        t->newRecording();
        base = int(t->getNumStatements());
    }
    double op(const std::string& f, int i, int j, int w)
    {
        A &x = *vs[i - 1], &y = *vs[j - 1];
        if (w == 0)
            vs.emplace_back(f == "add" ? new A(x + y) : f == "mul" ? new A(x * y) : new A(x + x - y));
        else if (f == "add")
            *vs[w - 1] = x + y;
        else if (f == "mul")
            *vs[w - 1] = x * y;
        else
            *vs[w - 1] = x + x - y;
        return num(w ? *vs[w - 1] : *vs.back());
    }
    std::vector<double> sweep(int i)
    {
        t->clearDerivatives();
        t->derivative(vs[i - 1]->getSlot()) = R(1.0);
        t->computeAdjoints();
        std::vector<double> g;
        for (auto s : in) g.push_back(num(t->getDerivative(s)));
        if (t->isActive())
            for (std::size_t k = 0; k < in.size(); ++k)
                if (num(vs[k]->getDerivative()) != g[k])
                    mismatch("derivative of input %u through the variable is different from the tape's", unsigned(k));
        return g;
    }
    double value(int i) { return num(*vs[i - 1]); }
    int statements() { return int(t->getNumStatements()) - base; }
    std::size_t memory() { return t->getMemory(); }
};

struct TypeOps
{
    char c;
    Box* (*make)(char, bool);
    const void* (*active)();
    void (*set0)();
    void (*daa)();
    double (*con)(double, double);
};
template <class R>
TypeOps ops(char c)
{
    struct F
    {
        static Box* make(char c, bool on) { return new BoxT<R>(c, on); }
        static const void* active() { return xad::Tape<R>::getActive(); }
        static void set0() { xad::Tape<R>::setActive(nullptr); }
        static void daa() { xad::Tape<R>::deactivateAll(); }
        static double con(double a, double b)
        {
            xad::AReal<R> x(a), y(b);
            xad::AReal<R> z = x * y + x;
            return num(z);
        }
    };
    return TypeOps{c, &F::make, &F::active, &F::set0, &F::daa, &F::con};
}
static const TypeOps ALL[] = {ops<double>('D'), ops<float>('F'), ops<xad::FReal<double>>('G'),
                              ops<xad::AReal<double>>('H'), ops<xad::AReal<xad::FReal<double>>>('I')};
static const TypeOps& ty(char c)
{
    for (auto& t : ALL)
        if (t.c == c)
            return t;
    abort();
}

struct World
{
    std::vector<std::unique_ptr<Box>> tp;
    explicit World(int n) : tp(n) {}
    Box& b(const std::string& s) { return *tp[I(s) - 1]; }
};

static std::string join(const Op& v)
{
    std::string r;
    for (auto& s : v) r += (r.empty() ? "" : " ") + s;
    return r;
}
static std::string vtext(double v)
{
    char b[40];
    snprintf(b, sizeof b, "v %.17g", v);
    return b;
}

static std::string apply(World& w, const Op& o)
{
    const std::string& c = o[0];
    try
    {
        if (c == "new")
            w.tp[I(o[1]) - 1].reset(ty(o[2][0]).make(o[2][0], o[3] == "1"));
        else if (c == "del")
        {
            w.b(o[1]).destroy(o[2] == "1");
            w.tp[I(o[1]) - 1].reset();
        }
        else if (c == "act" || c == "set")
            w.b(o[1]).activate(c == "set");
        else if (c == "set0")
            ty(o[1][0]).set0();
        else if (c == "dea")
            w.b(o[1]).deactivate();
        else if (c == "daa")
            ty(o[1][0]).daa();
        else if (c == "is")
            return w.b(o[1]).isActive() ? "yes" : "no";
        else if (c == "mvc")
            w.tp[I(o[2]) - 1].reset(w.b(o[1]).moveNew());
        else if (c == "mva")
            w.b(o[1]).moveTo(w.b(o[2]));
        else if (c == "rec")
            w.b(o[1]).start(I(o[2]), I(o[3]), I(o[4]));
        else if (c == "op")
            return vtext(w.b(o[1]).op(o[2], I(o[3]), I(o[4]), I(o[5])));
        else if (c == "con")
            return vtext(ty(o[1][0]).con(I(o[2]), I(o[3])));
        else if (c == "val")
            return vtext(w.b(o[1]).value(I(o[2])));
        else if (c == "swp")
        {
            std::string r = "g";
            for (double g : w.b(o[1]).sweep(I(o[2]))) r += vtext(g).substr(1);
            return r;
        }
        else
            return "unknown call " + c;
        return "ok";
    }
    catch (xad::TapeAlreadyActive&)
    {
        return "already";
    }
    catch (xad::Exception& e)
    {
        return std::string("exception ") + e.what();
    }
}

struct Step
{
    int th;
    Op o;
    std::string r;
    std::vector<int> act;   // thread by thread, type by type
    std::vector<int> n;     // statements on each tape, -1: not live
};
struct Behaviour
{
    long idx;
    std::string types;
    int nth, ntp;
    std::vector<Step> s;
};

// what is active in the calling thread, for every type there is
static void checkActive(World& w, const Behaviour& b, const int* row)
{
    for (auto& t : ALL)
    {
        std::size_t k = b.types.find(t.c);
        int e = k == std::string::npos ? 0 : row[k];
        const void* want = e ? w.tp[e - 1]->addr() : nullptr;
        const void* got = t.active();
        if (got != want)
            mismatch("active tape of type %c is %s, expected %s", t.c, got ? "another tape" : "none", e ? "one" : "none");
        for (auto& x : w.tp)
            if (x && x->ty == t.c && x->addr() && x->isActive() != (x->addr() == want))
                mismatch("isActive() is wrong for a tape of type %c", t.c);
    }
}
static void checkCounts(World& w, const Step& s)
{
    for (std::size_t t = 0; t < w.tp.size(); ++t)
        if (w.tp[t] && s.n[t] >= 0 && w.tp[t]->statements() != s.n[t])
            mismatch("tape %u has %d statements, expected %d", unsigned(t + 1), w.tp[t]->statements(), s.n[t]);
}
static void clean(World& w)
{
    for (auto& t : ALL) t.daa();
    for (auto& x : w.tp)
        if (x)
            x->destroy(true);
    w.tp.clear();
}

// a thread that executes functions on request
class Worker
{
    std::mutex m;
    std::condition_variable cv;
    std::function<void()> job;
    bool busy = false, stop = false;
    std::thread th;
    void loop()
    {
        std::unique_lock<std::mutex> l(m);
        for (;;)
        {
            cv.wait(l, [&] { return busy || stop; });
            if (!busy)
                return;
            job();
            busy = false;
            cv.notify_all();
        }
    }

  public:
    Worker() : th([this] { loop(); }) {}
    ~Worker()
    {
        {
            std::lock_guard<std::mutex> l(m);
            stop = true;
        }
        cv.notify_all();
        th.join();
    }
    std::string call(std::function<void()> f)
    {
        std::string err;
        std::unique_lock<std::mutex> l(m);
        job = [&] {
            try
            {
                f();
            }
            catch (Mismatch& x)
            {
                err = x.what;
            }
            catch (std::exception& e)
            {
                err = std::string("exception ") + e.what();
            }
        };
        busy = true;
        cv.notify_all();
        cv.wait(l, [&] { return !busy; });
        return err;
    }
};

static std::mutex outm;
static int fails = 0;
static void report(long idx, std::size_t step, const Op& o, int th, const std::string& what)
{
    std::lock_guard<std::mutex> l(outm);
    ++fails;
    std::cout << "MISMATCH " << idx << " " << step + 1 << " [thread " << th << ": " << join(o) << "] " << what << std::endl;
}

static long turn(const Behaviour& b)
{
    alarm(120);
    World w(b.ntp);
    std::vector<std::unique_ptr<Worker>> ws;
    for (int i = 0; i < b.nth; ++i) ws.emplace_back(new Worker);
    std::size_t k = 0;
    long steps = 0;
    bool bad = false;
    for (; k < b.s.size() && !bad; ++k)
    {
        const Step& s = b.s[k];
        ++steps;
        std::string got = "ok", err;
        if (s.o[0] == "thr")
            ws[s.th - 1].reset(new Worker);
        else
            err = ws[s.th - 1]->call([&] { got = apply(w, s.o); });
        if (err.empty() && got != s.r)
            err = "call returned '" + got + "', expected '" + s.r + "'";
        for (int i = 0; i < b.nth && err.empty(); ++i)
            err = ws[i]->call([&] { checkActive(w, b, &s.act[i * b.types.size()]); if (i + 1 == s.th) checkCounts(w, s); });
        std::vector<int> none(b.types.size(), 0);
        if (err.empty())
            try
            {
                World empty(0);
                checkActive(empty, b, none.data());   // the main thread takes no part
            }
            catch (Mismatch& m)
            {
                err = "main thread: " + m.what;
            }
        if (!err.empty())
        {
            report(b.idx, k, s.o, s.th, err);
            bad = true;
        }
    }
    for (auto& x : ws) x->call([&] { for (auto& t : ALL) t.daa(); });
    ws[0]->call([&] { clean(w); });
    return steps;
}

// the calls of thread th in all behaviours; returns when done or when the thread is to be replaced
struct Free
{
    const std::vector<Behaviour>& bs;
    int th;
    std::size_t b = 0, k = 0;
    long steps = 0;
    std::unique_ptr<World> w;
    Free(const std::vector<Behaviour>& x, int t) : bs(x), th(t) {}
    void run()
    {
        for (; b < bs.size(); ++b, k = 0)
        {
            const Behaviour& B = bs[b];
            if (th > B.nth)
                continue;
            if (!w)
                w.reset(new World(B.ntp));
            for (; k < B.s.size();)
            {
                const Step& s = B.s[k++];
                if (s.th != th)
                    continue;
                if (s.o[0] == "thr")
                    return;
                ++steps;
                std::string err;
                try
                {
                    std::string got = apply(*w, s.o);
                    if (got != s.r)
                        err = "call returned '" + got + "', expected '" + s.r + "'";
                    else
                    {
                        checkActive(*w, B, &s.act[(th - 1) * B.types.size()]);
                        checkCounts(*w, s);
                    }
                }
                catch (Mismatch& m)
                {
                    err = m.what;
                }
                if (!err.empty())
                {
                    report(B.idx, k - 1, s.o, th, err);
                    break;
                }
            }
            clean(*w);
            w.reset();
        }
    }
};

int main(int argc, char** argv)
{
    if (argc < 6)
        return 2;
    std::ifstream in(argv[1]);
    long shard = atol(argv[2]), shards = atol(argv[3]);
    Progress prog(argv[4]);
    bool free_ = std::string(argv[5]) == "free";
    std::string line;
    long idx = -1, done = 0, steps = 0;
    std::vector<Behaviour> bs;
    while (std::getline(in, line))
    {
        if (line.empty())
            continue;
        if (line[0] == 'B')
        {
            ++idx;
            Op o = split(line);
            if (idx % shards == shard)
            {
                Behaviour b;
                b.idx = idx;
                b.types = o[1];
                b.nth = I(o[2]);
                b.ntp = I(o[3]);
                bs.push_back(b);
            }
        }
        else if (line[0] == 'S' && idx % shards == shard)
        {
            std::vector<std::string> f(1);
            for (char c : line.substr(1))
                if (c == ';')
                    f.emplace_back();
                else
                    f.back() += c;
            Step s;
            s.th = I(split(f[0])[0]);
            s.o = split(f[1]);
            s.r = join(split(f[2]));
            for (auto& x : split(f[3])) s.act.push_back(I(x));
            for (auto& x : split(f[4])) s.n.push_back(I(x));
            bs.back().s.push_back(s);
        }
    }
    if (free_)
    {
        int n = 0;
        for (auto& b : bs) n = std::max(n, b.nth);
        if (!bs.empty())
            prog.set(bs[0].idx);
        std::vector<std::unique_ptr<Free>> fs;
        std::vector<std::thread> ms;
        for (int th = 1; th <= n; ++th)
        {
            fs.emplace_back(new Free(bs, th));
            Free* f = fs.back().get();
            ms.emplace_back([f] {
                while (f->b < f->bs.size())
                {
                    std::thread t([f] { f->run(); });
                    t.join();
                }
            });
        }
        for (auto& m : ms) m.join();
        for (auto& f : fs) steps += f->steps;
        done = long(bs.size());
    }
    else
        for (auto& b : bs)
        {
            prog.set(b.idx);
            steps += turn(b);
            ++done;
            if (fails >= 3)
                break;
        }
    prog.set(-1);
    std::cout << "DONE " << done << " " << steps << std::endl;
    return fails ? 1 : 0;
}
