// Common parts of the replay drivers: reading behaviours, progress file, mismatch reporting.
#pragma once
#include <XAD/XAD.hpp>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

struct Progress
{
    char* p = nullptr;
    explicit Progress(const char* file)
    {
        int fd = open(file, O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, 20) == 0)
            p = (char*)mmap(nullptr, 20, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == (char*)MAP_FAILED)
            p = nullptr;
    }
    void set(long i)
    {
        if (p)
        {
            char b[21];
            snprintf(b, sizeof b, "%-20ld", i);
            memcpy(p, b, 20);
        }
    }
};

struct Mismatch
{
    std::string what;
};

inline std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> r;
    std::istringstream is(s);
    std::string t;
    while (is >> t) r.push_back(t);
    return r;
}

template <class... A>
[[noreturn]] inline void mismatch(const char* f, A... a)
{
    char b[1000];
    snprintf(b, sizeof b, f, a...);
    throw Mismatch{b};
}
inline void mm1(const std::string& s) { throw Mismatch{s}; }

// innermost passive value
inline double num(const double& x) { return x; }
inline double num(const float& x) { return x; }
template <class T>
double num(const xad::FReal<T>& x);
template <class T>
double num(const xad::AReal<T>& x)
{
    return num(xad::value(x));
}
template <class T>
double num(const xad::FReal<T>& x)
{
    return num(xad::value(x));
}
