// What a run observed: counters, distinct non-trivial cases, samples and violations.
#pragma once
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <unistd.h>

inline std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    char* p = nullptr; int n = vasprintf(&p, fmt, ap); va_end(ap);
    std::string r = n >= 0 ? std::string(p, n) : std::string(); free(p); return r;
}
inline std::string jesc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32) o += strf("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}

struct Ctx {
    std::string prop, tier;
    uint64_t seed = 1;
    int variant_threads = 0;
    FILE* out = nullptr;       // JSON lines for the driver
    int marker_fd = -1;        // the case being run, for crash attribution
    long cur_case = -1;
    std::string cur_desc;
    bool verbose = false;
    std::map<std::string, unsigned long long> count;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    unsigned long long evaluations = 0, n_violations = 0;
    std::map<std::string, int> per_key;

    void begin_case(long i) {
        cur_case = i; cur_desc.clear(); evaluations++;
        if (marker_fd >= 0) {
            char b[32]; int n = snprintf(b, sizeof b, "%-20ld\n", i);
            (void)!pwrite(marker_fd, b, n, 0);
        }
    }
    void desc(const std::string& s) { cur_desc = s; }
    void nontrivial(uint64_t h) { distinct.insert(h); }
    void sample(const std::string& s) { if (samples.size() < 4) samples.push_back(s); }
    void violation(const std::string& key, const std::string& msg) {
        n_violations++;
        if (++per_key[key] > 3) return;
        if (out) {
            fprintf(out, "{\"type\":\"violation\",\"key\":%s,\"case\":%ld,\"desc\":%s,\"msg\":%s}\n",
                jesc(key).c_str(), cur_case, jesc(cur_desc).c_str(), jesc(msg).c_str());
            fflush(out);
        }
        if (verbose) fprintf(stderr, "VIOL [%s] case %ld: %s\n   %s\n", key.c_str(), cur_case,
                             msg.c_str(), cur_desc.c_str());
    }
    void finish() {
        if (!out) return;
        fprintf(out, "{\"type\":\"stats\",\"evaluations\":%llu,\"violations\":%llu,\"counters\":{",
                evaluations, n_violations);
        bool first = true;
        for (auto& kv : count) {
            fprintf(out, "%s%s:%llu", first ? "" : ",", jesc(kv.first).c_str(), kv.second);
            first = false;
        }
        fprintf(out, "},\"samples\":[");
        for (size_t i = 0; i < samples.size(); i++)
            fprintf(out, "%s%s", i ? "," : "", jesc(samples[i]).c_str());
        fprintf(out, "],\"distinct\":[");
        first = true;
        for (auto h : distinct) { fprintf(out, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
        fprintf(out, "]}\n");
        fprintf(out, "{\"type\":\"end\"}\n");
        fflush(out);
    }
};
