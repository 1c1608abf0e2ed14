// vh PROP --tier T --seed S --from A --to B --step K --out FILE [--marker FILE] [--case N] [-v]
#include "props.hpp"
#include <ctime>
#include "util.hpp"
#undef error

int main(int argc, char** argv) {
    Ctx ctx; ctx.prop = argc > 1 ? argv[1] : "";
    long from = 0, to = 10, step = 1; ctx.tier = "quick";
    std::string outf, markerf; double deadline = 0; time_t t0 = time(nullptr);
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--tier") ctx.tier = nx();
        else if (a == "--seed") ctx.seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--from") from = atol(nx().c_str());
        else if (a == "--to") to = atol(nx().c_str());
        else if (a == "--step") step = atol(nx().c_str());
        else if (a == "--case") { from = atol(nx().c_str()); to = from + 1; step = 1; }
        else if (a == "--out") outf = nx();
        else if (a == "--marker") markerf = nx();
        else if (a == "-v") ctx.verbose = true;
        else if (a == "--deadline") deadline = atof(nx().c_str());
    }
    PropReg* p = PropReg::head();
    while (p && ctx.prop != p->id) p = p->next;
    if (!p) { fprintf(stderr, "unknown property %s\n", ctx.prop.c_str()); return 3; }
    set_verbosity(0);
    if (!outf.empty()) { ctx.out = fopen(outf.c_str(), "w"); if (!ctx.out) return 3; }
    if (!markerf.empty()) ctx.marker_fd = open(markerf.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644);
    for (long i = from; i < to; i += step) {
        if (deadline > 0 && difftime(time(nullptr), t0) > deadline) { ctx.count["shards_stopped_by_deadline"]++; break; }
        ctx.begin_case(i);
        Rng r(Rng::mix(ctx.seed * 1000003ull + hash_str(ctx.prop)) ^ Rng::mix((uint64_t)i));
        p->fn(ctx, r, i);
    }
    ctx.finish();
    if (ctx.out) fclose(ctx.out);
    if (ctx.verbose) fprintf(stderr, "%s: %llu cases, %llu violations, %zu distinct\n", ctx.prop.c_str(),
                             ctx.evaluations, ctx.n_violations, ctx.distinct.size());
    return 0;
}
