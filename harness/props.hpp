#pragma once
#include "gen.hpp"
typedef void (*PropFn)(Ctx&, Rng&, long);
struct PropReg {
    const char* id; PropFn fn;
    PropReg* next;
    static PropReg*& head() { static PropReg* h = nullptr; return h; }
    PropReg(const char* id, PropFn fn) : id(id), fn(fn), next(head()) { head() = this; }
};
#define PROP(id) static void run_##id(Ctx&, Rng&, long); static PropReg reg_##id(#id, run_##id); \
    static void run_##id(Ctx& ctx, Rng& r, long icase)
