// Case loop, random numbers, result recording and exit() interception shared by all drivers.
#pragma once
#include <csetjmp>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }          // [0,1)
    double u(double a, double b) { return a + (b - a) * u(); }
    double lu(double a, double b);                                              // log-uniform
    int i(int a, int b) { return (int) (a + (int64_t) (next() % (uint64_t) ((int64_t) b - a + 1))); } // inclusive
    bool p(double q) { return u() < q; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + next() % l.size()); }
    double gauss();
};

struct Case {
    std::string prop, args;
    uint64_t index, seed;
    bool thorough = false;
    bool failed   = false;
    bool nontrivial = false;
    uint64_t hash   = 1469598103934665603ull;
    std::string sample;                        // written out for the first cases
    Rng rng{0};
    void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void mix(const void* p, size_t n) {
        const unsigned char* c = (const unsigned char*) p;
        for (size_t k = 0; k < n; k++) hash = (hash ^ c[k]) * 1099511628211ull;
    }
    void mix(double d) { mix(&d, sizeof d); }
};

// named counters of what the monitors actually observed
void count(const char* name, uint64_t n = 1);
void maxi(const char* name, double v);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// Runs f; returns true and sets code if it called exit().
bool callsExit(const std::function<void()>& f, int* code = nullptr);

extern std::string gWorkDir; // scratch directory of this worker (may be empty)

int harnessMain(int argc, char** argv, void (*run)(Case&));
