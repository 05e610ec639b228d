// C12: whatever happens while output is written, checkpoints completed before
// are intact and the run can be taken up from them; failures are reported.
#include "runs.hpp"

namespace {
using namespace runs;
using sim::strings;

struct call { long n; std::string what, path; long len; };

// one undisturbed run, and the file operations it performs
struct reference
{
    setup s;
    std::string dir;
    std::map<std::string, sim::contents> want;
    std::vector<call> calls;
    std::map<std::string, long> complete;     // file -> number of calls made when it was last closed
    std::set<std::string> all;
};

strings start(const setup& s, int from) { return from < 0 ? arguments(s) : strings{"restart=" + (outdir(s).empty() ? std::string() : outdir(s).substr(1) + "/") + chkpt(from)}; }

// `from`: the run is itself a restart, in the directory `before`
reference observe(const setup& s, const std::string& name, const std::string& before="", int from=-1)
{
    reference r; r.s = s; r.dir = sim::fresh(name);
    if (! before.empty()) sim::copy_tree(before, r.dir);
    auto log = vf::scratch() + "/" + name + ".log";
    auto e = sim::run(s.program, start(s, from), r.dir, trace_to(log));
    CHECK(e.ok(), "the undisturbed run fails: ", e.what);
    r.want = outputs(r.dir + outdir(s));
    std::istringstream in(sim::slurp(log)); call c;
    while (in >> c.n >> c.what >> c.path >> c.len)
    {
        if (c.n >= 0) r.calls.push_back(c);
        else if (c.what == "closed" || c.what == "renamed") r.complete[sim::leaf(c.path)] = r.calls.size();
    }
    for (auto& w : r.want) r.all.insert(w.first);
    return r;
}

// the last checkpoint completed before call n
int latest(const reference& r, long n, int from)
{
    int k = from;
    for (int i = from + 1; r.want.count(chkpt(i)); ++i) { auto c = r.complete.find(chkpt(i)); if (c == r.complete.end() || c->second > n) break; k = i; }
    return k;
}

uint64_t fingerprint(const std::string& dir)
{
    uint64_t h = 3; for (auto& n : sim::entries(dir)) { struct stat st; auto p = dir + "/" + n; h = vf::mix(h, vf::hash(n)); if (! lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) h = vf::mix(h, fingerprint(p)); else h = vf::mix(h, vf::hash(sim::slurp(p))); }
    return h;
}

void intact(const reference& r, const std::string& dir, int k)
{
    for (int i = 0; i <= k; ++i)
    {
        sim::contents c; auto f = dir + outdir(r.s) + "/" + chkpt(i);
        CHECK(sim::exists(f), chkpt(i), " is gone");
        CHECK(sim::dump(f, c), chkpt(i), " cannot be read");
        auto d = sim::difference(r.want.at(chkpt(i)), c, RESTART);
        CHECK(d.empty(), chkpt(i), ": ", d);
    }
}

std::set<std::pair<uint64_t, int>> seen;

// taking the run up again from checkpoint k (-1: from the beginning)
void resume(vf::ctx& c, const reference& r, const std::string& dir, int k)
{
    auto print = fingerprint(dir);
    c.state(vf::mix(print, k + 1));
    if (! seen.insert({print, k}).second) return;
    auto again = sim::run(r.s.program, start(r.s, k), dir); c.step();
    auto which = k < 0 ? std::string("starting again") : "restarting from " + chkpt(k);
    CHECK(again.ok(), which, " fails: ", again.what);
    auto got = outputs(dir + outdir(r.s));
    compare(r.want, got, r.all, which);
    for (auto& g : got) CHECK(r.all.count(g.first), which, ": ", g.first, " is new");
}

void disturb(vf::ctx& c, const reference& r, const std::string& before, int from, fault::mode how, long n, int error)
{
    auto dir = sim::fresh("disturbed");
    if (! before.empty()) sim::copy_tree(before, dir);
    fault::plan p; p.how = how; p.at = n; p.error = error;
    auto e = sim::run(r.s.program, start(r.s, from), dir, p); c.step();
    CHECK(! e.hung, "the run does not end");
    CHECK(e.code != 86 && e.code != 128 + SIGSEGV && e.code != 128 + SIGBUS, e.what);
    bool kill = how == fault::kill_before || how == fault::kill_torn;
    int k = latest(r, n, from);
    if (kill) CHECK(e.code == 137, "the run was to be ended at call ", n, ": ", e.what);
    intact(r, dir, std::max(k, from));
    if (! kill && e.ok())
    {
        // it claims success, so everything is there
        auto got = outputs(dir + outdir(r.s));
        compare(r.want, got, r.all, "the run claims success, but");
    }
    else resume(c, r, dir, k);
    c.interesting(k >= 0);
}

const char* name(fault::mode m) { return m == fault::kill_before ? "killed before" : m == fault::kill_torn ? "killed within" : m == fault::fail_once ? "failure of" : "failure from"; }

void every(vf::ctx& c, const reference& r, const std::string& before, int from, bool errors)
{
    std::vector<std::pair<fault::mode, int>> modes = {{fault::kill_before, 0}, {fault::kill_torn, 0}};
    if (errors) { modes.push_back({fault::fail_once, ENOSPC}); modes.push_back({fault::fail_from, ENOSPC}); if (c.thorough()) { modes.push_back({fault::fail_once, EIO}); modes.push_back({fault::fail_from, EIO}); } }
    for (auto& m : modes) for (auto& k : r.calls)
    {
        if (m.first == fault::kill_torn && k.len < 2) continue;
        c.each([&] (auto& o) { o << r.s; if (from >= 0) o << " restarted from " << chkpt(from); o << ": " << name(m.first) << " call " << k.n << " (" << k.what << " " << sim::leaf(k.path) << ")" << (m.second == EIO ? " EIO" : ""); },
               [&] { disturb(c, r, before, from, m.first, k.n, m.second); });
    }
}

std::vector<setup> setups(bool deep)
{
    std::vector<setup> r = {
        {"binary", {"block_size=4", "depth=1", "domain_radius=6.0", "threaded=1", "tfinal=0.2", "cpi=0.1", "dfi=0.1", "tsi=0.05"}, ""},
        {"sedov", {"nr=16", "outer_radius=10.0", "tfinal=0.2", "cpi=0.1", "dfi=0.1", "tsi=0.05"}, ""},
        {"cloud", {"nr=4", "num_decades=1.0", "tfinal=0.4", "cpi=0.2", "dfi=0.2", "tsi=0.1"}, ""},
        {"boilerplate", {"N=8", "cpi=0.05", "tfinal=0.1"}, ""},
        // arrays too large to be buffered until the file is closed
        {"sedov", {"nr=1600", "outer_radius=10.0", "tfinal=3e-4", "cpi=2e-4", "dfi=1e-4", "tsi=1e-4"}, ""}};
    if (deep)
    {
        r.push_back({"binary", {"block_size=4", "depth=2", "domain_radius=6.0", "threaded=1", "tfinal=0.3", "cpi=0.1", "dfi=0.07", "tsi=0.01", "conserve_linear_p=0"}, ""});
        r.push_back({"sedov", {"nr=16", "outer_radius=10.0", "tfinal=0.3", "cpi=0.1", "dfi=0.25", "tsi=0.001", "newtonian=1"}, ""});
        r.push_back({"cloud", {"nr=4", "num_decades=1.0", "tfinal=0.6", "cpi=0.2", "dfi=0.5", "tsi=0.001", "rk_order=2"}, ""});
    }
    return r;
}

template<typename F> void with(vf::ctx& c, const setup& s, F&& f)
{
    f();
    for (auto& d : sim::entries(vf::scratch())) { struct stat st; auto p = vf::scratch() + "/" + d; if (! lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) sim::wipe(p); }
    seen.clear();
}

void faults(vf::ctx& c, const std::string& program)
{
    for (auto& s : setups(c.thorough())) if (s.program == program) with(c, s, [&] { every(c, observe(s, "base"), "", -1, true); });
}

// a restarted run is disturbed in turn
void again(vf::ctx& c)
{
    for (auto& s : setups(false)) with(c, s, [&]
    {
        auto base = observe(s, "base");
        int n = count(base.want);
        for (int k = 0; k + 1 < n; k += c.thorough() ? 1 : std::max(1, n - 2))
        {
            // the directory as a kill right after checkpoint k leaves it
            auto before = sim::fresh("before");
            fault::plan p; p.how = fault::kill_before; p.at = base.complete.at(chkpt(k));
            sim::run(s.program, arguments(s), before, p);
            every(c, observe(s, "restarted", before, k), before, k, c.thorough());
        }
    });
}
}

int main(int argc, char** argv)
{
    if (sim::is_child(argc, argv)) return sim::child(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    return vf::main(argc, argv, {
        {"binary", [] (vf::ctx& c) { faults(c, "binary"); }}, {"sedov", [] (vf::ctx& c) { faults(c, "sedov"); }},
        {"cloud", [] (vf::ctx& c) { faults(c, "cloud"); }}, {"boilerplate", [] (vf::ctx& c) { faults(c, "boilerplate"); }},
        {"again", again}});
}
