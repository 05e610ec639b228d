// C11: a run that is stopped at a checkpoint and restarted is the run that was
// not interrupted.
#include "runs.hpp"

namespace {
using namespace runs;
using sim::strings;

// what a run wrote, in order of completion
std::vector<std::string> completed(const std::string& log)
{
    std::vector<std::string> r; std::istringstream in(sim::slurp(log)); std::string n, what, path, len;
    while (in >> n >> what >> path >> len) if (what == "closed" || what == "renamed") r.push_back(sim::leaf(path));
    return r;
}

std::set<std::string> after(const std::vector<std::string>& order, const std::string& file)
{
    std::set<std::string> r; std::size_t last = 0; bool found = false;
    for (std::size_t i = 0; i < order.size(); ++i) if (order[i] == file) { last = i; found = true; }
    CHECK(found, file, " was never completed");
    for (std::size_t i = last + 1; i < order.size(); ++i) r.insert(order[i]);
    return r;
}

void equivalence(vf::ctx& c, const setup& s)
{
    auto base = sim::fresh("base"), log = vf::scratch() + "/trace.log";
    auto r = sim::run(s.program, arguments(s), base, trace_to(log));
    CHECK(r.ok(), "the run fails: ", r.what);
    auto want = outputs(base + outdir(s));
    auto order = completed(log);
    int n = count(want);
    CHECK(n >= 3, "only ", n, " checkpoints");
    std::set<std::string> all; for (auto& w : want) { all.insert(w.first); if (w.first.substr(0, 5) == "chkpt") c.state(sim::digest(w.second, RESTART)); }

    // once more: the run itself is reproducible
    auto again = sim::fresh("again");
    CHECK(sim::run(s.program, arguments(s), again).ok(), "the second run fails");
    auto twice = outputs(again + outdir(s));
    CHECK(twice.size() == want.size(), "the second run writes other files");
    compare(want, twice, all, "same run again");

    auto restart = [&] (const std::string& dir, int k, strings extra, const std::string& from)
    {
        auto path = (outdir(s).empty() ? std::string() : outdir(s).substr(1) + "/") + chkpt(k);
        strings a = {"restart=" + path}; for (auto& e : extra) a.push_back(e);
        auto r = sim::run(s.program, a, dir);
        c.step();
        CHECK(r.ok(), from, ": restart from ", chkpt(k), " fails: ", r.what);
    };
    for (int k = 0; k < n; ++k)
    {
        auto rest = after(order, chkpt(k));
        for (int bare : {0, 1})
        {
            // with everything the first run left behind, and with the checkpoint alone
            auto dir = sim::fresh("restart"); sim::copy_tree(base, dir);
            if (bare) for (auto& f : all) if (f != chkpt(k) && f != "time_series.h5") unlink((dir + outdir(s) + "/" + f).c_str());
            auto which = vf::cat("restart from ", chkpt(k), bare ? " alone" : "");
            restart(dir, k, {}, which);
            auto got = outputs(dir + outdir(s));
            compare(want, got, bare ? rest : all, which, k == n - 1);
            // the last step goes beyond the end; restarting from there adds one more
            if (k < n - 1) for (auto& g : got) CHECK(all.count(g.first), which, ": ", g.first, " is new");
            if (bare && k < n - 1) for (auto& g : got) if (g.first != chkpt(k) && g.first != "time_series.h5") CHECK(rest.count(g.first), which, ": ", g.first, " is written again");
            // a second interruption, from any later checkpoint of the restarted run
            if (bare) for (int j = k + 1; j < n; j += c.thorough() ? 1 : std::max(1, n - k - 2))
            {
                auto d2 = sim::fresh("chain"); sim::copy_tree(dir, d2);
                for (auto& f : all) if (f != chkpt(j) && f != "time_series.h5") unlink((d2 + outdir(s) + "/" + f).c_str());
                auto which = vf::cat("restart from ", chkpt(k), ", then from ", chkpt(j));
                restart(d2, j, {}, which);
                compare(want, outputs(d2 + outdir(s)), after(order, chkpt(j)), which, j == n - 1);
            }
        }
    }
    // a longer run, continued from each checkpoint of the shorter one
    if (! s.more.empty())
    {
        auto full = sim::fresh("longer"); auto a = add(arguments(s), {s.more});
        CHECK(sim::run(s.program, a, full, trace_to(log)).ok(), "the longer run fails");
        auto longer = outputs(full + outdir(s)); order = completed(log);
        CHECK(longer.size() > want.size(), "the longer run writes no more than the shorter one");
        auto name = s.more.substr(0, s.more.find('='));
        for (int k = 0; k < n; ++k)
        {
            auto dir = sim::fresh("restart"); sim::copy_tree(base, dir);
            auto which = vf::cat("restart from ", chkpt(k), " with ", s.more);
            restart(dir, k, {s.more}, which);
            auto got = outputs(dir + outdir(s));
            auto rest = after(order, chkpt(k));
            compare(longer, got, rest, which);   // includes the stored option
            for (auto& g : got) CHECK(longer.count(g.first), which, ": ", g.first, " is new");
        }
    }
    c.interesting();
    for (auto d : {"base", "again", "restart", "chain", "longer"}) if (sim::exists(vf::scratch() + "/" + d)) sim::wipe(vf::scratch() + "/" + d);
}

std::vector<setup> setups(bool deep)
{
    std::vector<setup> r;
    // binary: intervals and end time in orbits
    auto bin = [&] (strings more) { r.push_back({"binary", add({"block_size=4", "depth=2", "domain_radius=6.0", "threaded=2", "tfinal=0.45"}, more), "tfinal=0.6"}); };
    std::vector<strings> cad = {{"cpi=0.1", "dfi=0.1", "tsi=0.1"}, {"cpi=0.15", "dfi=0.1", "tsi=0.05"}, {"cpi=0.1", "dfi=0.25", "tsi=0.001"}, {"cpi=0.13", "dfi=0.07", "tsi=0.11"}};
    for (auto& k : cad) { bin(k); }
    for (auto o : std::vector<strings>{{"rk_order=1"}, {"reconstruct_method=pcm"}, {"begin_live_binary=0.0"}, {"begin_live_binary=0.0", "eccentricity=0.3", "mass_ratio=0.5"}, {"conserve_linear_p=0"}, {"conserve_linear_p=0", "rk_order=1"}, {"fixed_dt=1"}, {"nu=0.001"}, {"density_floor=0.5"}, {"counter_rotate=1"}, {"threaded=1"}, {"axisymmetric_cs2=1"}, {"depth=1"}, {"depth=3"}})
        bin(add(cad[1], o));
    if (deep) for (auto& k : cad) for (auto o : std::vector<strings>{{"rk_order=1"}, {"begin_live_binary=0.0", "eccentricity=0.3"}, {"conserve_linear_p=0"}, {"fixed_dt=1"}, {"depth=3"}, {"block_size=6"}}) if (&k != &cad[1]) bin(add(k, o));
    // sedov
    auto sed = [&] (strings a) { a.push_back("nr=16"); a.push_back("outer_radius=10.0"); r.push_back({"sedov", add(a, {"tfinal=0.5"}), "tfinal=0.8"}); };
    for (auto& k : std::vector<strings>{{"cpi=0.1", "dfi=0.1", "tsi=0.1"}, {"cpi=0.15", "dfi=0.1", "tsi=0.05"}, {"cpi=0.1", "dfi=0.25", "tsi=0.001"}, {"cpi=0.13", "dfi=0.07", "tsi=0.11"}})
        for (auto o : std::vector<strings>{{"newtonian=0"}, {"newtonian=1"}, {"density_index=1.0"}}) sed(add(k, o));
    // cloud
    auto clo = [&] (strings a) { r.push_back({"cloud", add(add({"nr=4", "tfinal=0.8"}, {"num_decades=1.0"}), a), "tfinal=1.2"}); };
    for (auto& k : std::vector<strings>{{"cpi=0.2", "dfi=0.2", "tsi=0.2"}, {"cpi=0.3", "dfi=0.2", "tsi=0.1"}, {"cpi=0.2", "dfi=0.5", "tsi=0.001"}})
        for (auto o : std::vector<strings>{{"rk_order=1"}, {"rk_order=2"}, {"reconstruct_method=1"}}) clo(add(k, o));
    // boilerplate
    for (auto& k : std::vector<strings>{{"cpi=0.05"}, {"cpi=0.07"}, {"cpi=0.001"}}) for (auto o : std::vector<strings>{{"N=16"}, {"N=5"}})
        r.push_back({"boilerplate", add(add(k, o), {k[0] == "cpi=0.001" ? "tfinal=0.06" : "tfinal=0.3"}), k[0] == "cpi=0.001" ? "tfinal=0.1" : "tfinal=0.5"});
    return r;
}

void restarts(vf::ctx& c)
{
    for (auto& s : setups(c.thorough())) c.each([&] (auto& o) { o << s; }, [&] { equivalence(c, s); });
}

// options given at restart replace stored ones, everything else is kept
void overrides(vf::ctx& c)
{
    struct item { std::string program; strings args; std::string group; strings change; };
    std::vector<item> items = {
        {"binary", {"block_size=4", "depth=2", "threaded=1", "tfinal=0.2", "cpi=0.1", "alpha=0.05", "reconstruct_method=pcm", "rk_order=1"}, "run_config", {"cpi=0.05", "tfinal=0.3", "plm_theta=1.5", "rk_order=2", "reconstruct_method=plm", "nu=0.01"}},
        {"sedov", {"nr=16", "outer_radius=10.0", "tfinal=0.3", "cpi=0.1", "newtonian=1"}, "config", {"cpi=0.05", "tfinal=0.5", "dfi=0.3"}},
        {"cloud", {"nr=4", "num_decades=1.0", "tfinal=0.6", "cpi=0.2", "plm_theta=1.1"}, "config", {"cpi=0.1", "tfinal=0.9", "rk_order=2", "reconstruct_method=1", "temperature_floor=1e-7"}},
        {"boilerplate", {"N=16", "cpi=0.05", "tfinal=0.2"}, "run_config", {"cpi=0.02", "tfinal=0.3"}}};
    for (auto& t : items) for (auto& ch : t.change)
        c.each([&] (auto& o) { o << t.program << " restarted with " << ch; }, [&]
        {
            setup s{t.program, t.args, ""};
            auto dir = sim::fresh("override");
            CHECK(sim::run(s.program, arguments(s), dir).ok(), "the run fails");
            auto before = outputs(dir + outdir(s)); int n = count(before);
            CHECK(n >= 2, "checkpoints");
            std::string path = (outdir(s).empty() ? std::string() : "out/") + chkpt(0);
            for (auto& f : before) if (f.first.substr(0, 5) == "chkpt" && f.first != chkpt(0)) unlink((dir + outdir(s) + "/" + f.first).c_str());
            auto r = sim::run(s.program, {"restart=" + path, ch}, dir); c.step();
            CHECK(r.ok(), r.what);
            auto got = outputs(dir + outdir(s));
            CHECK(got.count(chkpt(1)), "no checkpoint after the restart");
            auto name = ch.substr(0, ch.find('=')), value = ch.substr(ch.find('=') + 1);
            int seen = 0;
            for (auto& x : got.at(chkpt(1))) if (x.first.compare(0, t.group.size() + 2, "/" + t.group + "/") == 0)
            {
                auto& old = before.at(chkpt(0)).at(x.first); auto key = sim::leaf(x.first);
                if (key == name)
                {
                    ++seen;
                    if (x.second.type[0] == 'f') { double d; memcpy(&d, x.second.bytes.data(), 8); CHECK(d == atof(value.c_str()), key, " is ", d); }
                    else if (x.second.type[0] == 'i') { int d; memcpy(&d, x.second.bytes.data(), 4); CHECK(d == atoi(value.c_str()), key, " is ", d); }
                    else CHECK(std::string(x.second.bytes.c_str()) == value, key, " is ", x.second.bytes);
                }
                else if (key != "restart") CHECK(x.second == old, key, " has changed at the restart");
            }
            CHECK(seen == 1, name, " is not in the stored configuration");
            c.state(vf::hash(t.program + ch)); c.interesting();
            sim::wipe(dir);
        });
    // a restart from what is not there, or is no checkpoint, is refused
    for (auto p : {"binary", "sedov", "cloud", "boilerplate"}) for (int bad = 0; bad < 3; ++bad)
        c.each([&] (auto& o) { o << p << ": restart from " << (bad == 0 ? "a missing file" : bad == 1 ? "a text file" : "an empty HDF5 file"); }, [&]
        {
            auto dir = sim::fresh("refuse");
            if (bad == 1) sim::spill(dir + "/x.h5", "hello");
            if (bad == 2) { hid_t f = H5Fcreate((dir + "/x.h5").c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); H5Fclose(f); }
            auto r = sim::run(p, {"restart=x.h5"}, dir, {}, 60); c.step();
            CHECK(! r.ok() && ! r.hung && r.code == 97, "not refused: ", r.what);
            sim::wipe(dir);
        });
}
}

int main(int argc, char** argv)
{
    if (sim::is_child(argc, argv)) return sim::child(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    return vf::main(argc, argv, {{"restarts", restarts}, {"overrides", overrides}});
}
