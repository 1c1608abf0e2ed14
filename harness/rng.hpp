// Deterministic random numbers, independent of the C++ library's distributions.
#pragma once
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>

struct Rng {
    uint64_t s;
    static uint64_t mix(uint64_t z) {
        z += 0x9E3779B97F4A7C15ull;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed) : s(mix(seed ^ 0xA5A5A5A5DEADBEEFull)) {}
    uint64_t u64() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double u() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u(); }
    double loguni(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    int range(int a, int b) {  // inclusive
        return a + (int)(u64() % (uint64_t)(b - a + 1));
    }
    bool chance(double p) { return u() < p; }
    // to one significant digit
    double round1(double x) {
        if (x == 0) return 0;
        double p = std::pow(10.0, std::floor(std::log10(std::fabs(x))));
        double v = std::round(x / p);
        return p < 1 ? v / std::round(1 / p) : v * p;
    }
    template <class T> T pick(std::initializer_list<T> l) {
        return *(l.begin() + (u64() % l.size()));
    }
};

inline uint64_t hash_str(const std::string& t) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : t) { h ^= c; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hash_add(uint64_t h, uint64_t v) { return Rng::mix(h * 31 + v); }
inline uint64_t hash_dbl(uint64_t h, double d) {
    uint64_t v; __builtin_memcpy(&v, &d, 8); return hash_add(h, v);
}
