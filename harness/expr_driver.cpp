// usage: expr_driver points shard nshards statefile
#ifdef CPLX
#include "cplx_run.hpp"
#else
#include "expr_run.hpp"
#endif
#include <cstdlib>
#include <cstring>
#include <map>
std::vector<Prog>& registry() { static std::vector<Prog> r; return r; }
static const char* tname[16] = {"AReal<double>", "FReal<double>", "AReal<float>", "FReal<float>", "FReal<AReal>", "AReal<FReal>",
    "AReal<AReal>", "FReal<FReal>", "FReal<FReal<AReal>>", "FReal<AReal<FReal>>", "FReal<AReal<AReal>>", "FReal<FReal<FReal>>",
    "AReal<FReal<AReal>>", "AReal<AReal<FReal>>", "AReal<AReal<AReal>>", "AReal<FReal<FReal>>"};
static std::vector<int> bits(int order) { std::vector<int> r; for (int i = 0; i < order; ++i) r.push_back(i); return r; }
static long bad = 0, cmp = 0;
static void report(int id, const char* t, const std::vector<double>& x, const std::vector<double>& p, int out, int mask,
                   const int* dir, int order, double got, double want, double tol)
{
    ++bad;
    static std::map<int, int> per;
    if (++per[id] > 2 || per.size() > 60) return;
    printf("MISMATCH {\"prog\":%d,\"type\":\"%s\",\"out\":%d,\"partial\":[", id, t, out);
    bool first = true;
    for (int b = 0; b < order; ++b) if (mask >> b & 1) { printf("%s%d", first ? "" : ",", dir[b]); first = false; }
    printf("],\"got\":\"%.17g\",\"want\":\"%.17g\",\"tol\":\"%.3g\",\"x\":[", got, want, tol);
    for (size_t i = 0; i < x.size(); ++i) printf("%s\"%a\"", i ? "," : "", x[i]);
    printf("],\"par\":[");
    for (size_t i = 0; i < p.size(); ++i) printf("%s\"%a\"", i ? "," : "", p[i]);
    printf("]}\n");
}
template <class T> void runType(const Prog& pr, int slot, int order, const std::vector<double>& xd, const std::vector<double>& par,
                                int nout, const std::vector<double>& blk)
{
    if (!pr.fn[slot]) return;
    typedef typename Nest<T>::base Bs;
    PF<T> f = (PF<T>)pr.fn[slot];
    int ni = xd.size(), M = 1 << order, nd = 1;
    for (int o = 0; o < order; ++o) nd *= ni;
    std::vector<Bs> x;
    for (double v : xd) x.push_back((Bs)v);
    typename Lv<T>::F F = [&](const std::vector<T>& X, std::vector<T>& Y)
    {
        // the program works on copies: moving into a variable would take its slot along
        std::vector<T> in(X);
        Y.assign(nout, T());
        f(in.data(), par.data(), Y.data());
    };
    for (int d = 0; d < nd; ++d)
    {
        int dir[4], q = d;
        for (int o = 0; o < order; ++o) { dir[o] = q % ni; q /= ni; }
        std::vector<Bs> out;
        Lv<T>::run(F, x, dir, out);
        // out: level l splits [values, derivatives] at every recursion; innermost level varies slowest
        for (int o = 0; o < nout; ++o)
            for (int m = 0; m < M; ++m)
            {
                int ix = 0;
                for (int l = order - 1; l >= 0; --l) ix = ix * 2 + (m >> l & 1);
                double got = (double)out[(size_t)ix * nout + o];
                double want = blk[(((size_t)d * nout + o) * M + m) * 2], tol = blk[(((size_t)d * nout + o) * M + m) * 2 + 1];
                ++cmp;
                if (!(std::fabs(got - want) <= tol) && !(got == want))
                    report(pr.id, tname[slot], xd, par, o, m, dir, order, got, want, tol);
            }
    }
}
#ifdef CPLX
template <class T> void runNative(const Prog& pr, int slot, const std::vector<double>& xd, const std::vector<double>& par,
                                  int nout, const std::vector<double>& blk)
{
    if (!pr.nat[slot]) return;
    typedef typename Nest<T>::base U;
    std::vector<U> x(xd.begin(), xd.end());
    std::vector<std::vector<U>> val, der;
    Native<T>::run((NF<T>)pr.nat[slot], pr.nr, pr.nz, pr.wr, pr.wz, x, par.data(), val, der);
    for (int d = 0; d < (int)x.size(); ++d)
        for (int o = 0; o < nout; ++o)
            for (int m = 0; m < 2; ++m)
            {
                double got = m ? (double)der[d][o] : (double)val[d][o];
                double want = blk[(((size_t)d * nout + o) * 2 + m) * 2], tol = blk[(((size_t)d * nout + o) * 2 + m) * 2 + 1];
                int dir[1] = {d};
                ++cmp;
                if (!(std::fabs(got - want) <= tol) && !(got == want))
                    report(pr.id, tname[slot], xd, par, o, m, dir, 1, got, want, tol);
            }
}
#define NATIVE(T, s) runNative<T>(q, s, x, p, hd[5], blk);
#else
#define NATIVE(T, s)
#endif
int main(int argc, char** argv)
{
    setvbuf(stdout, 0, _IOLBF, 1 << 16);
    std::map<int, Prog> pr;
    for (auto& p : registry())
    {
        auto i = pr.find(p.id);
        if (i == pr.end()) pr[p.id] = p;
        else for (int k = 0; k < 16; ++k) if (p.fn[k]) i->second.fn[k] = p.fn[k];
    }
    FILE* f = fopen(argv[1], "rb");
    int shard = atoi(argv[2]), n = atoi(argv[3]);
    FILE* st = fopen(argv[4], "r+");
    int hd[6];
    long idx = 0;
    while (fread(hd, sizeof hd, 1, f) == 1)
    {
        int order = hd[1];
        std::vector<double> x(hd[3]), p(hd[4]);
        size_t nd = 1;
        for (int o = 0; o < order; ++o) nd *= hd[3];
        std::vector<double> blk(nd * hd[5] * (1 << order) * 2);
        size_t k = 0;
        if (!x.empty()) k += fread(x.data(), 8, x.size(), f);
        if (!p.empty()) k += fread(p.data(), 8, p.size(), f);
        k += fread(blk.data(), 8, blk.size(), f);
        if (k != x.size() + p.size() + blk.size()) return 3;
        if (idx++ % n != shard) continue;
        auto i = pr.find(hd[0]);
        if (i == pr.end()) continue;
        rewind(st); fprintf(st, "%-20d", hd[0]); fflush(st);
        const Prog& q = i->second;
#if XTYPES & 1
        if (order == 1 && hd[2] == 0) { runType<A>(q, 0, 1, x, p, hd[5], blk); runType<Fw>(q, 1, 1, x, p, hd[5], blk); NATIVE(A, 0) NATIVE(Fw, 1) }
#endif
#if XTYPES & 8
        if (order == 1 && hd[2] == 1) { runType<Af>(q, 2, 1, x, p, hd[5], blk); runType<Ff>(q, 3, 1, x, p, hd[5], blk); NATIVE(Af, 2) NATIVE(Ff, 3) }
#endif
#if XTYPES & 2
        if (order == 2) { runType<FA>(q, 4, 2, x, p, hd[5], blk); runType<AF>(q, 5, 2, x, p, hd[5], blk);
                          runType<AA>(q, 6, 2, x, p, hd[5], blk); runType<FF>(q, 7, 2, x, p, hd[5], blk); }
#endif
#if XTYPES & 4
        if (order == 3) { runType<FFA>(q, 8, 3, x, p, hd[5], blk); runType<FAF>(q, 9, 3, x, p, hd[5], blk);
                          runType<FAA>(q, 10, 3, x, p, hd[5], blk); runType<FFF>(q, 11, 3, x, p, hd[5], blk);
                          runType<AFA>(q, 12, 3, x, p, hd[5], blk); runType<AAF>(q, 13, 3, x, p, hd[5], blk);
                          runType<AAA>(q, 14, 3, x, p, hd[5], blk); runType<AFF>(q, 15, 3, x, p, hd[5], blk); }
#endif
    }
    printf("compared %ld bad %ld\n", cmp, bad);
    return bad ? 1 : 0;
}
