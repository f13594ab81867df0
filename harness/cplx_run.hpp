// Programs over complex variables: besides the generic runner (complex numbers built from their parts),
// the complex interface itself - registration, derivatives and values of std::complex<active>.
#pragma once
#include "expr_run.hpp"
#include <XAD/Complex.hpp>
#include <complex>
template <class T> using NF = void (*)(T*, std::complex<T>*, const double*, T*, std::complex<T>*);
template <class T> struct Native;
template <class U> struct Native<xad::AReal<U>>
{
    typedef xad::AReal<U> T;
    typedef std::complex<T> Z;
    // result: for every direction the values and derivatives of all outputs, as the generic runner orders them
    static void run(NF<T> f, int nr, int nz, int wr, int wz, const std::vector<U>& x, const double* c,
                    std::vector<std::vector<U>>& val, std::vector<std::vector<U>>& der)
    {
        typename T::tape_type tape;
        std::vector<T> X(nr);
        std::vector<Z> W(nz);
        for (int k = 0; k < nr; ++k) value(X[k]) = x[k];
        for (int k = 0; k < nz; ++k) W[k] = std::complex<U>(x[nr + 2 * k], x[nr + 2 * k + 1]);
        for (auto& v : X) tape.registerInput(v);
        for (auto& w : W) tape.registerInput(w);
        tape.newRecording();
        std::vector<T> Xc(X), Y(wr);
        std::vector<Z> Wc(W), V(wz);
        f(Xc.data(), Wc.data(), c, Y.data(), V.data());
        for (auto& y : Y) tape.registerOutput(y);
        for (auto& v : V) tape.registerOutput(v);
        int no = wr + 2 * wz, ni = nr + 2 * nz;
        val.assign(ni, std::vector<U>());
        der.assign(ni, std::vector<U>(no));
        for (int o = 0; o < no; ++o)
        {
            int z = (o - wr) / 2;
            U v;
            tape.clearDerivatives();
            if (o < wr) { Y[o].setDerivative(1); v = Y[o].value(); }
            else if ((o - wr) % 2 == 0)
            {
                if (z % 2) V[z].setDerivative(U(1)); else V[z].setAdjoint(U(1), U(0));
                v = xad::value(V[z]).real();
            }
            else
            {
                if (z % 2) derivative(V[z].imag()) = U(1); else V[z].setDerivative(U(0), U(1));
                v = xad::value(V[z]).imag();
            }
            tape.computeAdjoints();
            for (int i = 0; i < ni; ++i) val[i].push_back(v);
            for (int i = 0; i < nr; ++i) der[i][o] = X[i].getDerivative();
            for (int k = 0; k < nz; ++k)
            {
                std::complex<U> d = o % 3 == 0 ? W[k].getDerivative() : o % 3 == 1 ? W[k].getAdjoint() : xad::derivative(W[k]);
                der[nr + 2 * k][o] = d.real();
                der[nr + 2 * k + 1][o] = d.imag();
            }
        }
    }
};
template <class U> struct Native<xad::FReal<U>>
{
    typedef xad::FReal<U> T;
    typedef std::complex<T> Z;
    static void run(NF<T> f, int nr, int nz, int wr, int wz, const std::vector<U>& x, const double* c,
                    std::vector<std::vector<U>>& val, std::vector<std::vector<U>>& der)
    {
        int ni = nr + 2 * nz;
        val.assign(ni, std::vector<U>());
        der.assign(ni, std::vector<U>());
        for (int i = 0; i < ni; ++i)
        {
            std::vector<T> X(nr), Y(wr);
            std::vector<Z> W(nz), V(wz);
            for (int k = 0; k < nr; ++k) X[k] = x[k];
            for (int k = 0; k < nz; ++k) W[k] = std::complex<U>(x[nr + 2 * k], x[nr + 2 * k + 1]);
            if (i < nr) X[i].setDerivative(1);
            else
            {
                int k = (i - nr) / 2;
                bool im = (i - nr) % 2;
                if (k % 2) W[k].setAdjoint(U(!im), U(im)); else if (im) W[k].setDerivative(U(0), U(1)); else W[k].setDerivative(U(1));
            }
            f(X.data(), W.data(), c, Y.data(), V.data());
            for (auto& y : Y) { val[i].push_back(y.value()); der[i].push_back(y.getDerivative()); }
            for (size_t k = 0; k < V.size(); ++k)
            {
                std::complex<U> v = xad::value(V[k]), d = (i + k) % 3 == 0 ? V[k].getDerivative() : (i + k) % 3 == 1 ? V[k].getAdjoint() : xad::derivative(V[k]);
                val[i].push_back(v.real()); val[i].push_back(v.imag());
                der[i].push_back(d.real()); der[i].push_back(d.imag());
            }
        }
    }
};
template <template <class> class P> Prog native(Prog p, int nr, int nz, int wr, int wz)
{
    p.nr = nr; p.nz = nz; p.wr = wr; p.wz = wz;
#if XTYPES & 1
    p.nat[0] = (void*)(NF<A>)&P<A>::g; p.nat[1] = (void*)(NF<Fw>)&P<Fw>::g;
#endif
#if XTYPES & 8
    p.nat[2] = (void*)(NF<Af>)&P<Af>::g; p.nat[3] = (void*)(NF<Ff>)&P<Ff>::g;
#endif
    return p;
}
