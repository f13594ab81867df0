// Replays behaviours of spec/Chunk.tla into xad::ChunkContainer<ELEM, BLOCK>.
#include "drv.hpp"
#include <memory>
#include <set>
#include <csignal>

#ifndef BLOCK
#define BLOCK 2
#endif

// counts lifetimes by address
struct Tracked
{
    int v;
    int* heap;
    static std::set<const Tracked*>& live()
    {
        static std::set<const Tracked*> s;
        return s;
    }
    void born()
    {
        if (!live().insert(this).second)
            mm1("element constructed twice");
        heap = new int(v);
    }
    Tracked() : v(0) { born(); }
    Tracked(int x) : v(x) { born(); }
    Tracked(const Tracked& o) : v(o.get()) { born(); }
    Tracked& operator=(const Tracked& o)
    {
        if (!live().count(this))
            throw Mismatch{"assignment to an element that was not constructed"};
        v = o.get();
        *heap = v;
        return *this;
    }
    ~Tracked()
    {
        if (live().erase(this) != 1)
        {
            std::cout << "element destroyed that was not constructed" << std::endl;
            abort();
        }
        delete heap;
    }
    int get() const
    {
        if (!live().count(this))
            throw Mismatch{"element read that was not constructed"};
        return *heap;
    }
};

template <class E>
struct Tr;
template <>
struct Tr<int>
{
    static int make(int v) { return v; }
    static int get(const int& v) { return v; }
};
template <>
struct Tr<double>
{
    static double make(int v) { return v; }
    static int get(const double& v) { return int(v); }
};
typedef std::pair<unsigned, unsigned> PairE;
template <>
struct Tr<PairE>
{
    static PairE make(int v) { return PairE(v, v + 1); }
    static int get(const PairE& v)
    {
        if (v.second != v.first + 1)
            mm1("element torn");
        return int(v.first);
    }
};
template <>
struct Tr<std::string>
{
    static std::string make(int v) { return "a long string that is not stored in place " + std::to_string(v); }
    static int get(const std::string& v) { return atoi(v.c_str() + 42); }
};
template <>
struct Tr<Tracked>
{
    static Tracked make(int v) { return Tracked(v); }
    static int get(const Tracked& v) { return v.get(); }
};

template <class E>
struct Replay
{
    typedef xad::ChunkContainer<E, BLOCK> C;
    std::vector<std::unique_ptr<C> > q;
    Replay() : q(8) { q[1].reset(new C()); }

    void apply(const std::vector<std::string>& o, int v)
    {
        const std::string& op = o[0];
        int i = atoi(o[1].c_str());
        int n = o.size() > 2 ? atoi(o[2].c_str()) : 0;
        C* c = q[i].get();
        if (op == "pb")
            c->push_back(Tr<E>::make(v));
        else if (op == "eb")
            c->emplace_back(Tr<E>::make(v));
        else if (op == "ps")
            c->push_back((*c)[c->size() - 1]);
        else if (op == "app")
        {
            std::vector<E> x;
            for (int k = 1; k <= n; ++k) x.push_back(Tr<E>::make(v * 100 + k));
            c->append(x.begin(), x.end());
        }
        else if (op == "ext")
        {
            std::size_t old = c->size();
            c->uninitialized_extend(n);
            if (c->size() != old + n)
                mm1("uninitialized_extend gives wrong size");
            for (int k = 1; k <= n; ++k) ::new (&(*c)[old + k - 1]) E(Tr<E>::make(v * 100 + k));
        }
        else if (op == "rsz")
            c->resize(n, Tr<E>::make(v));
        else if (op == "asg")
            c->assign(n, Tr<E>::make(v));
        else if (op == "set")
            (*c)[n - 1] = Tr<E>::make(v);
        else if (op == "rsv")
        {
            c->reserve(n);
            if (c->capacity() < std::size_t(n))
                mm1("capacity less than reserved");
        }
        else if (op == "clr")
            c->clear();
        else if (op == "new")
            q[i].reset(new C());
        else if (op == "del")
            q[i].reset();
        else if (op == "mvc")
            q[i].reset(new C(std::move(*q[n])));
        else if (op == "mva")
        {
            C& r = *q[n];
            *c = std::move(r);
        }
        else
            mm1("unknown call " + op);
    }
    void observe(const std::vector<std::string>& s)
    {
        // per container: state n e1..en
        std::size_t p = 0;
        std::size_t total = 0;
        for (int i = 1; p < s.size(); ++i)
        {
            std::string st = s[p++];
            std::size_t n = atoi(s[p++].c_str());
            total += n;
            if ((st == "no") != !q[i])
                mm1("driver state");
            if (st == "no")
                continue;
            C& c = *q[i];
            if (c.size() != n)
                mismatch("container %d has %u elements, expected %u", i, unsigned(c.size()), unsigned(n));
            if (c.empty() != (n == 0))
                mismatch("container %d: empty() wrong", i);
            if (st == "mv")
                continue;
            const C& cc = c;
            typename C::iterator it = c.iterator_at(0), e = c.iterator_at(n);
            for (std::size_t k = 0; k < n; ++k)
            {
                int want = atoi(s[p++].c_str());
                if (Tr<E>::get(c[k]) != want || Tr<E>::get(cc[k]) != want)
                    mismatch("container %d element %u is %d, expected %d", i, unsigned(k), Tr<E>::get(c[k]), want);
                if (!(it != e))
                    mismatch("container %d: iterator ends at %u of %u", i, unsigned(k), unsigned(n));
                if (Tr<E>::get(*it) != want)
                    mismatch("container %d: iterator gives %d at %u, expected %d", i, Tr<E>::get(*it), unsigned(k), want);
                typename C::iterator jt = c.iterator_at(k);
                if (!(jt == it) || Tr<E>::get(*jt) != want)
                    mismatch("container %d: iterator_at(%u) differs", i, unsigned(k));
                if (k % 2)
                    ++it;
                else
                    it++;
            }
            if (it != e)
                mismatch("container %d: iterator does not end after %u elements", i, unsigned(n));
        }
        if (std::is_same<E, Tracked>::value && Tracked::live().size() != total)
            mismatch("%u elements alive, expected %u", unsigned(Tracked::live().size()), unsigned(total));
    }
};

template <class E>
static int runOne(const std::vector<std::string>& beh, long idx, const char* name)
{
    int step = 0;
    std::string last;
    Tracked::live().clear();
    try
    {
        {
            Replay<E> r;
            for (const std::string& l : beh)
            {
                if (l[0] == 'S')
                {
                    last = l;
                    ++step;
                    r.apply(split(l.substr(2)), step);
                }
                else if (l[0] == 'O')
                    r.observe(split(l.substr(1)));
            }
        }
        if (!Tracked::live().empty())
            mismatch("%u elements never destroyed", unsigned(Tracked::live().size()));
    }
    catch (Mismatch& m)
    {
        std::cout << "MISMATCH " << idx << " " << step << " [" << last << "] block " << BLOCK << " element " << name
                  << ": " << m.what << std::endl;
        return 1;
    }
    return 0;
}

int main(int argc, char** argv)
{
    if (argc < 5)
        return 2;
    std::ifstream in(argv[1]);
    long shard = atol(argv[2]), shards = atol(argv[3]);
    Progress prog(argv[4]);
    std::string line;
    long idx = -1, done = 0, steps = 0;
    int fails = 0;
    std::vector<std::string> beh;
    while (std::getline(in, line))
    {
        if (line.empty())
            continue;
        if (line[0] == 'B')
        {
            ++idx;
            beh.clear();
        }
        else if (line[0] == 'E')
        {
            if (idx % shards == shard)
            {
                prog.set(idx);
                alarm(60);
                fails += runOne<Tracked>(beh, idx, "tracked");
                fails += runOne<int>(beh, idx, "int");
                fails += runOne<PairE>(beh, idx, "pair");
                fails += runOne<std::string>(beh, idx, "string");
                ++done;
                steps += long(beh.size());
                if (fails >= 3)
                    break;
            }
        }
        else if (idx % shards == shard)
            beh.push_back(line);
    }
    prog.set(-1);
    std::cout << "DONE " << done << " " << steps << std::endl;
    std::cout.flush();
    return fails ? 1 : 0;
}
