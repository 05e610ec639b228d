// What a simulation is started with and what it leaves behind.
#pragma once
#include "sim.hpp"
#include "fault.hpp"

namespace runs {
using sim::strings;

struct setup { std::string program; strings args; std::string more; };   // more: "option=value" that prolongs the run
inline std::ostream& operator<<(std::ostream& o, const setup& s) { o << s.program; for (auto& a : s.args) o << " " << a; return o; }

inline std::string outdir(const setup& s) { return s.program == "boilerplate" ? "" : "/out"; }
// later options replace earlier ones
inline strings add(strings a, const strings& b)
{
    for (auto& x : b) { auto key = x.substr(0, x.find('=') + 1); bool seen = false; for (auto& y : a) if (y.compare(0, key.size(), key) == 0) { y = x; seen = true; } if (! seen) a.push_back(x); }
    return a;
}
inline strings arguments(const setup& s) { auto r = s.args; if (s.program != "boilerplate") r.push_back("outdir=out"); return r; }
inline std::string chkpt(int k) { char b[64]; snprintf(b, 64, "chkpt.%04d.h5", k); return b; }

inline std::map<std::string, sim::contents> outputs(const std::string& dir)
{
    std::map<std::string, sim::contents> r;
    for (auto& n : sim::entries(dir)) if (n.size() > 3 && n.substr(n.size() - 3) == ".h5") { CHECK(sim::dump(dir + "/" + n, r[n]), "cannot read ", n); }
    return r;
}
inline int count(const std::map<std::string, sim::contents>& m) { int k = 0; while (m.count(chkpt(k))) ++k; return k; }

// options that name the restart itself
const std::set<std::string> RESTART = {"restart"};

// The time series file of sedov is kept across restarts: its copy of the
// configuration is the one it was created with, and a restart from beyond the
// end may add rows to it.
inline sim::contents series(const sim::contents& c, const sim::contents* shorter)
{
    sim::contents r;
    for (auto& x : c) if (x.first.compare(0, 12, "/run_config/"))
    {
        auto& o = r[x.first] = x.second;
        if (shorter && shorter->count(x.first)) { auto& w = shorter->at(x.first); if (o.dims.size() == 1 && w.dims.size() == 1 && o.dims[0] > w.dims[0]) { o.bytes.resize(o.bytes.size() / o.dims[0] * w.dims[0]); o.dims = w.dims; } }
    }
    return r;
}

inline void compare(const std::map<std::string, sim::contents>& want, const std::map<std::string, sim::contents>& got, const std::set<std::string>& names, const std::string& which, bool last=false)
{
    for (auto& n : names)
    {
        CHECK(got.count(n), which, ": ", n, " is not written");
        auto d = n == "time_series.h5"
            ? sim::difference(series(want.at(n), nullptr), series(got.at(n), last ? &want.at(n) : nullptr), RESTART)
            : sim::difference(want.at(n), got.at(n), RESTART);
        CHECK(d.empty(), which, ": ", n, ": ", d);
    }
}

inline fault::plan trace_to(const std::string& log) { fault::plan p; p.how = fault::trace; p.log = log; return p; }
}
