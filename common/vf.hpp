// Bounded-exhaustive enumeration kernel.
//
// A harness is a list of groups; a group enumerates a finite space of cases in
// a fixed order and runs each one against the real code. A case is named by
// (group, index), so that any failure, crash or hang can be replayed alone.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <ctime>

namespace vf
{

struct failure_t { std::string what; };
struct stop_t {};

inline std::string escape(const std::string& s)
{ std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char) ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else if ((unsigned char) ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char) ch); r += b; } else r += ch; } return r; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

class ctx
{
public:
    // ---- configuration
    int tier = 0;                    // 0 quick, 1 thorough
    long shard = 0, nshards = 1;
    long only = -1;                  // replay one case
    std::string group;
    long index = 0;                  // cases enumerated so far in this group
    // ---- results
    long cases = 0, checks = 0, transitions = 0, nontrivial = 0;
    std::unordered_set<uint64_t> states;
    std::vector<std::string> samples;
    struct bad_t { std::string group; long index; std::string desc, what; };
    std::vector<bad_t> bad;
    long max_bad = 40;
    bool cut = false;                // some case was not explored to its end
    volatile long* progress = nullptr;
    char* progress_group = nullptr;
    std::string journal;             // failures are also written here at once

    bool thorough() const { return tier == 1; }
    template<typename T> T pick(T quick, T deep) const { return tier ? deep : quick; }

    template<typename Describe, typename Body>
    void each(Describe&& describe, Body&& body)
    {
        long i = index++;
        if (only >= 0 ? i != only : i % nshards != shard) return;
        if (progress) *progress = i;
        if (only >= 0)
        {
            std::ostringstream o; describe(o);
            printf("CASE %s:%ld %s\n", group.c_str(), i, o.str().c_str()); fflush(stdout);
        }
        ++cases;
        if (cases == 1 || cases == 7 || (cases & (cases - 1)) == 0)
        {
            if (samples.size() < 400) { std::ostringstream o; describe(o); samples.push_back(group + ": " + o.str()); }
        }
        std::string what; double t0 = now();
        try { body(); return; }
        catch (const failure_t& f) { what = f.what; }
        catch (const stop_t&) { throw; }
        catch (const std::exception& e) { what = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what(); }
        catch (...) { what = "unexpected exception"; }
        std::ostringstream o; describe(o);
        bad.push_back({group, i, o.str(), what});
        if (! journal.empty()) if (FILE* f = fopen(journal.c_str(), "a")) { fprintf(f, "{\"group\": \"%s\", \"index\": %ld, \"desc\": \"%s\", \"what\": \"%s\"}\n", group.c_str(), i, escape(o.str()).c_str(), escape(what).c_str()); fclose(f); }
        if ((long) bad.size() >= max_bad || now() - t0 > 15) throw stop_t{};
    }

    void state(uint64_t h) { states.insert(h); }
    void step(long n=1) { transitions += n; }
    void interesting(bool b=true) { if (b) ++nontrivial; }
};

[[noreturn]] inline void fail(const std::string& what) { throw failure_t{what}; }

template<typename... A> std::string cat(const A&... a) { std::ostringstream o; o.precision(17); (o << ... << a); return o.str(); }

inline long& check_count() { static long n = 0; return n; }
#define CHECK(c, ...) do { ++vf::check_count(); if (!(c)) vf::fail(vf::cat("line ", __LINE__, ": ", #c, " : ", __VA_ARGS__)); } while (0)

template<typename F> bool throws(F&& f) { try { f(); } catch (const failure_t&) { throw; } catch (...) { return true; } return false; }
template<typename Ex, typename F> bool throws_as(F&& f) { try { f(); } catch (const Ex&) { return true; } catch (const failure_t&) { throw; } catch (...) { } return false; }

inline bool close(double a, double b, double rel=1e-10, double abs=1e-12)
{
    if (std::isnan(a) || std::isnan(b)) return false;
    if (a == b) return true;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
    return h;
}
inline uint64_t hash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return mix(h, s.size()); }
inline uint64_t bits(double x) { uint64_t u; std::memcpy(&u, &x, 8); return u; }

// a scratch directory of our own, given by the driver
inline std::string scratch() { auto s = getenv("VF_SCRATCH"); if (!s) { fprintf(stderr, "VF_SCRATCH not set\n"); _exit(3); } return s; }

struct group_t { std::string name; std::function<void(ctx&)> run; };

inline int main(int argc, char** argv, const std::vector<group_t>& groups)
{
    ctx c;
    std::string out, prog, want;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--tier") c.tier = val() == "thorough";
        else if (a == "--shard") { auto v = val(); c.shard = atol(v.c_str()); c.nshards = atol(v.substr(v.find('/') + 1).c_str()); }
        else if (a == "--group") want = val();
        else if (a == "--only") c.only = atol(val().c_str());
        else if (a == "--out") { out = val(); c.journal = out + ".bad"; unlink(c.journal.c_str()); }
        else if (a == "--progress") prog = val();
        else if (a == "--list") { for (auto& g : groups) printf("%s\n", g.name.c_str()); return 0; }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    if (!prog.empty())
    {
        int fd = open(prog.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, 4096)) { perror("progress"); return 3; }
        auto p = (char*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        ::close(fd);
        c.progress = (volatile long*) p; *c.progress = -1;
        c.progress_group = p + 64;
    }
    std::vector<std::pair<std::string, long>> per_group;
    bool capped = false;
    for (auto& g : groups)
    {
        if (!want.empty() && g.name != want) continue;
        c.group = g.name; c.index = 0;
        long before = c.cases;
        if (c.progress_group) { strncpy(c.progress_group, g.name.c_str(), 200); *c.progress = -1; }
        try { g.run(c); }
        catch (const stop_t&) { capped = true; }
        catch (const failure_t& f) { c.bad.push_back({g.name, -1, "group set-up", f.what}); }
        catch (const std::exception& e) { c.bad.push_back({g.name, -1, "group set-up", e.what()}); }
        per_group.push_back({g.name, c.cases - before});
        if (capped) break;
    }
    if (c.progress_group) strcpy(c.progress_group, "(end)");
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) { perror("out"); return 3; }
    auto esc = escape;
    fprintf(f, "{\"cases\": %ld, \"checks\": %ld, \"transitions\": %ld, \"nontrivial\": %ld, \"capped\": %s, \"nstates\": %zu,\n \"groups\": {", c.cases, check_count(), c.transitions, c.nontrivial, capped || c.cut ? "true" : "false", c.states.size());
    for (size_t i = 0; i < per_group.size(); ++i) fprintf(f, "%s\"%s\": %ld", i ? ", " : "", per_group[i].first.c_str(), per_group[i].second);
    fprintf(f, "},\n \"samples\": [");
    for (size_t i = 0; i < c.samples.size(); ++i) fprintf(f, "%s\n  \"%s\"", i ? "," : "", esc(c.samples[i]).c_str());
    fprintf(f, "],\n \"bad\": [");
    for (size_t i = 0; i < c.bad.size(); ++i) fprintf(f, "%s\n  {\"group\": \"%s\", \"index\": %ld, \"desc\": \"%s\", \"what\": \"%s\"}", i ? "," : "", c.bad[i].group.c_str(), c.bad[i].index, esc(c.bad[i].desc).c_str(), esc(c.bad[i].what).c_str());
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    if (!out.empty())
    {
        FILE* s = fopen((out + ".states").c_str(), "w");
        if (s) { for (auto h : c.states) fwrite(&h, 8, 1, s); fclose(s); }
    }
    return c.bad.empty() ? 0 : 1;
}

}
