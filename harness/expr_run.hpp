// Runs one generated program in an active type of any nesting and compares all mixed partial
// derivatives with the expected ones.
#pragma once
#include <XAD/XAD.hpp>
#include <cmath>
#include <cstdio>
#include <functional>
#include <type_traits>
#include <vector>

template <class T> struct Nest { static const int order = 0; typedef T base; };
template <class U> struct Nest<xad::AReal<U>> { static const int order = 1 + Nest<U>::order; typedef typename Nest<U>::base base; };
template <class U> struct Nest<xad::FReal<U>> { static const int order = 1 + Nest<U>::order; typedef typename Nest<U>::base base; };

// increments and compound assignment of numbers: not available for nested types, spelled out there
template <class T, bool first> struct Step
{
    static T& preadd(T& v) { return ++v; }
    static T postadd(T& v) { return v++; }
    static T& presub(T& v) { return --v; }
    static T postsub(T& v) { return v--; }
    template <class R> static void add(T& v, const R& r) { v += r; }
    template <class R> static void sub(T& v, const R& r) { v -= r; }
    template <class R> static void mul(T& v, const R& r) { v *= r; }
    template <class R> static void div(T& v, const R& r) { v /= r; }
};
template <class T> struct Step<T, false>
{
    static T& preadd(T& v) { v = v + 1; return v; }
    static T postadd(T& v) { T o = v; v = v + 1; return o; }
    static T& presub(T& v) { v = v - 1; return v; }
    static T postsub(T& v) { T o = v; v = v - 1; return o; }
    template <class R> static void add(T& v, const R& r) { v = v + r; }
    template <class R> static void sub(T& v, const R& r) { v = v - r; }
    template <class R> static void mul(T& v, const R& r) { v = v * r; }
    template <class R> static void div(T& v, const R& r) { v = v / r; }
};
template <class T, class R> struct Stepper : Step<T, Nest<T>::order == 1 || !std::is_arithmetic<typename std::decay<R>::type>::value> {};
template <class T> struct Incr : Step<T, Nest<T>::order == 1> {};

// run<T>: outputs and all derivatives of F along dirs (one direction per level, outermost first);
// result: for every output, for every subset of levels (bit l = level l)
template <class T> struct Lv;
template <> struct Lv<double>
{
    typedef std::function<void(const std::vector<double>&, std::vector<double>&)> F;
    static void run(const F& f, const std::vector<double>& x, const int*, std::vector<double>& out) { f(x, out); }
};
template <> struct Lv<float>
{
    typedef std::function<void(const std::vector<float>&, std::vector<float>&)> F;
    static void run(const F& f, const std::vector<float>& x, const int*, std::vector<float>& out) { f(x, out); }
};
template <class U> struct Lv<xad::FReal<U>>
{
    typedef xad::FReal<U> T;
    typedef typename Nest<T>::base Bs;
    typedef std::function<void(const std::vector<T>&, std::vector<T>&)> F;
    static void run(const F& f, const std::vector<Bs>& x, const int* dir, std::vector<Bs>& out)
    {
        auto g = [&](const std::vector<U>& u, std::vector<U>& r)
        {
            std::vector<T> X, Y;
            for (auto& v : u) { X.emplace_back(); value(X.back()) = v; }
            X[dir[0]].setDerivative(U(1));
            f(X, Y);
            r.clear();
            for (auto& y : Y) r.push_back(y.value());
            for (auto& y : Y) r.push_back(y.derivative());
        };
        Lv<U>::run(g, x, dir + 1, out);
    }
};
template <class U> struct Lv<xad::AReal<U>>
{
    typedef xad::AReal<U> T;
    typedef typename Nest<T>::base Bs;
    typedef std::function<void(const std::vector<T>&, std::vector<T>&)> F;
    static void run(const F& f, const std::vector<Bs>& x, const int* dir, std::vector<Bs>& out)
    {
        auto g = [&](const std::vector<U>& u, std::vector<U>& r)
        {
            typename T::tape_type tape;
            std::vector<T> X, Y;
            for (auto& v : u) { X.emplace_back(); value(X.back()) = v; }
            for (auto& v : X) tape.registerInput(v);
            tape.newRecording();
            f(X, Y);
            for (auto& y : Y) tape.registerOutput(y);
            r.clear();
            for (auto& y : Y) r.push_back(y.value());
            for (auto& y : Y)
            {
                tape.clearDerivatives();
                y.setDerivative(U(1));
                tape.computeAdjoints();
                r.push_back(X[dir[0]].getDerivative());
            }
        };
        Lv<U>::run(g, x, dir + 1, out);
    }
};

struct Prog
{
    int id;
    void* fn[16];
    void* nat[4];              // programs over complex variables: called with these
    int nr, nz, wr, wz;
};
typedef std::vector<Prog>& (*RegFn)();
std::vector<Prog>& registry();
typedef xad::AReal<double> A; typedef xad::FReal<double> Fw; typedef xad::AReal<float> Af; typedef xad::FReal<float> Ff;
typedef xad::FReal<A> FA; typedef xad::AReal<Fw> AF; typedef xad::AReal<A> AA; typedef xad::FReal<Fw> FF;
typedef xad::FReal<FA> FFA; typedef xad::FReal<AF> FAF; typedef xad::FReal<AA> FAA; typedef xad::FReal<FF> FFF;
typedef xad::AReal<FA> AFA; typedef xad::AReal<AF> AAF; typedef xad::AReal<AA> AAA; typedef xad::AReal<FF> AFF;
#ifndef XTYPES
#define XTYPES 7
#endif
struct Add
{
    Add(Prog p) { registry().push_back(p); }
};
template <class T> using PF = void (*)(T*, const double*, T*);
template <template <class> class P> Prog make(int id)
{
    Prog p;
    p.id = id;
    for (auto& f : p.fn) f = nullptr;
    for (auto& f : p.nat) f = nullptr;
    p.nr = p.nz = p.wr = p.wz = 0;
#if XTYPES & 1
    p.fn[0] = (void*)(PF<A>)&P<A>::f; p.fn[1] = (void*)(PF<Fw>)&P<Fw>::f;
#endif
#if XTYPES & 8
    p.fn[2] = (void*)(PF<Af>)&P<Af>::f; p.fn[3] = (void*)(PF<Ff>)&P<Ff>::f;
#endif
#if XTYPES & 2
    p.fn[4] = (void*)(PF<FA>)&P<FA>::f; p.fn[5] = (void*)(PF<AF>)&P<AF>::f;
    p.fn[6] = (void*)(PF<AA>)&P<AA>::f; p.fn[7] = (void*)(PF<FF>)&P<FF>::f;
#endif
#if XTYPES & 4
    p.fn[8] = (void*)(PF<FFA>)&P<FFA>::f; p.fn[9] = (void*)(PF<FAF>)&P<FAF>::f;
    p.fn[10] = (void*)(PF<FAA>)&P<FAA>::f; p.fn[11] = (void*)(PF<FFF>)&P<FFF>::f;
    p.fn[12] = (void*)(PF<AFA>)&P<AFA>::f; p.fn[13] = (void*)(PF<AAF>)&P<AAF>::f;
    p.fn[14] = (void*)(PF<AAA>)&P<AAA>::f; p.fn[15] = (void*)(PF<AFF>)&P<AFF>::f;
#endif
    return p;
}
