// C26: what the simulations report describes the solution they have.
#include "flows.hpp"
#include "app_config.hpp"
#include "app_schedule.hpp"
#include "subprog_binary.hpp"
#include "physics_iso2d.hpp"
#include "model_two_body.hpp"
#include "post_shock_locator.hpp"
#include "math_interpolation.hpp"
using namespace flows;
using vf::ctx;

static std::string args_of(const strings& a) { std::string r; for (auto& x : a) r += " " + x; return r; }
static std::string numbered(const char* p, int k) { char b[64]; snprintf(b, 64, "%s.%04d.h5", p, k); return b; }
static void same(double want, double got, double scale, const std::string& what, double tol=1e-9) { CHECK(std::fabs(want - got) <= tol * (std::fabs(want) + scale), what, " is reported as ", got, " instead of ", want); }
static void same(const vec& want, const vec& got, const std::string& what, double tol=1e-9)
{
    CHECK(want.size() == got.size(), what, " has ", got.size(), " values instead of ", want.size());
    double m = 0; for (double x : want) if (std::isfinite(x)) m = std::max(m, std::fabs(x));
    for (size_t i = 0; i < want.size(); ++i) CHECK(std::fabs(want[i] - got[i]) <= tol * (std::fabs(want[i]) + 1e-3 * m), what, ", value ", i, ", is reported as ", got[i], " instead of ", want[i]);
}
static void each_positive(const vec& want, const vec& got, const std::string& what) { CHECK(want.size() == got.size(), what, " has ", got.size(), " values instead of ", want.size()); for (size_t i = 0; i < want.size(); ++i) CHECK(std::fabs(want[i] - got[i]) <= 1e-7 * std::fabs(want[i]), what, ", value ", i, ", is reported as ", got[i], " instead of ", want[i]); }

// ------------------------------------------------- the place of a shock front
// Decisions that hang on rounding are marked, and not compared.
struct front { size_t at = 0, behind = 0, ahead = 0; bool sure = true, sure_behind = true, sure_ahead = true; };
static size_t behind(const vec& y, size_t i, bool& sure)
{
    while (i > 0) { if (std::fabs(y[i - 1] - y[i]) <= 1e-9 * std::fabs(y[i])) sure = false; if (y[i - 1] > y[i]) --i; else break; }
    return i;
}
template<typename Gas> static front locate(const std::vector<five>& p)
{
    front f; vec s, y; for (auto& x : p) { s.push_back(Gas::entropy(x)); y.push_back(x[4]); }
    double low = 1e300; for (size_t i = 0; i + 1 < s.size(); ++i) if (s[i + 1] - s[i] < low) { low = s[i + 1] - s[i]; f.at = i; }
    for (size_t i = 0; i + 1 < s.size(); ++i) if (i != f.at && s[i + 1] - s[i] < low + 1e-6) f.sure = false;
    f.behind = behind(y, f.at, f.sure_behind);
    // the foot of the front: where the pressure stops falling; none is reported as zero
    size_t i = f.at, n = p.size(); auto d = [&] (size_t k) { return std::log(y[k + 1]) - std::log(y[k]); };
    while (true)
    {
        if (i < 2 || i > n - 1) { f.ahead = 0; break; }
        double a = d(i - 1), b = 0.5 * d(i - 2);
        if (std::fabs(a - b) < 1e-6) f.sure_ahead = false;
        if (a < b) ++i; else { f.ahead = i; break; }
    }
    return f;
}

// ------------------------------------------------------------------- sedov
template<typename Gas> static void initial(const blast& b, const strings& a)
{
    int nr = int(option(a, "nr", 256)); double R = option(a, "outer_radius", 100), n = option(a, "density_index", 0);
    same(std::pow(10, -0.5), b.r[0], 0, "the inner radius"); same(R, b.r.back(), 0, "the outer radius");
    double zones = (std::log10(R) + 0.5) * nr; CHECK(std::fabs(b.u.size() - zones) <= 1 && b.r.size() == b.u.size() + 1, "there are ", b.u.size(), " zones, not ", nr, " per decade");
    for (size_t i = 1; i + 1 < b.r.size(); ++i) same(b.r[i] / b.r[i - 1], b.r[i + 1] / b.r[i], 0, "the spacing of the zones");
    auto p = states<Gas>(b);
    for (size_t i = 0; i < p.size(); ++i)
    {
        double r = 0.5 * (b.r[i] + b.r[i + 1]); bool in = r < 1; if (std::fabs(r - 1) < 1e-9) continue;
        double d = in ? option(a, "explosion_density", 1) : std::pow(r, -n), q = in ? option(a, "explosion_pressure", 1) : d * 1e-6;
        same(d, p[i][0], 0, vf::cat("the initial density at ", r)); same(q, p[i][4], 0, vf::cat("the initial pressure at ", r), 1e-7); for (int k = 1; k < 4; ++k) same(0, p[i][k], 1, "the initial velocity");
    }
}
template<typename Gas> static void reports(ctx& c, const std::map<std::string, sim::contents>& out, const strings& a)
{
    int n = runs::count(out); CHECK(n >= 3, "only ", n, " checkpoints"); CHECK(out.count("time_series.h5"), "there is no time series");
    auto& t = out.at("time_series.h5"); std::map<std::string, vec> col;
    for (auto name : {"time", "shock_radius", "shock_radius_upstream", "shock_radius_downstream", "shock_radius_interpolated", "shock_velocity"}) { col[name] = doubles(t, std::string("/") + name); CHECK(col[name].size() == size_t(n), name, " has ", col[name].size(), " rows instead of ", n); }
    initial<Gas>(read_blast(out.at(runs::chkpt(0))), a);
    for (int k = 0; k < n; ++k)
    {
        auto b = read_blast(out.at(runs::chkpt(k))); auto p = states<Gas>(b); CHECK(out.count(numbered("diagnostics", k)), "there are no diagnostics ", k); auto& d = out.at(numbered("diagnostics", k));
        vec rho, pre, s, v, rc; for (size_t i = 0; i < p.size(); ++i) { rho.push_back(p[i][0]); pre.push_back(p[i][4]); s.push_back(Gas::entropy(p[i])); v.push_back(p[i][1]); rc.push_back(0.5 * (b.r[i] + b.r[i + 1])); }
        each_positive(rho, doubles(d, "/mass_density"), "density"); each_positive(pre, doubles(d, "/gas_pressure"), "pressure"); same(s, doubles(d, "/specific_entropy"), "entropy", 1e-7); same(v, doubles(d, "/radial_gamma_beta"), "velocity"); same(rc, doubles(d, "/radial_coordinates"), "radius");
        auto f = locate<Gas>(p);
        for (int where = 0; where < 2; ++where)   // in the diagnostics and in the time series
        {
            auto get = [&] (const std::string& name) { return where ? col.at(name)[k] : number(d, "/" + name); };
            auto in = [&] (double x) { for (size_t i = 0; i < rc.size(); ++i) if (std::fabs(rc[i] - x) <= 1e-9 * x) return i; vf::fail(vf::cat("a radius is reported as ", x, ", which is not the centre of a zone")); };
            same(b.time, get("time"), 0, "time");
            if (! f.sure) continue;
            same(b.r[f.at], get("shock_radius"), 0, "the radius of the shock");
            size_t up = in(get("shock_radius_upstream")), down = in(get("shock_radius_downstream"));
            if (f.sure_behind) CHECK(down == f.behind, "the place behind the shock is reported as ", rc[down], " instead of ", rc[f.behind]);
            if (f.sure_ahead) CHECK(up == f.ahead, "the place ahead of the shock is reported as ", rc[up], " instead of ", rc[f.ahead]);
            auto w = [&] (const five& x) { return Gas::newtonian ? 1.0 : std::sqrt(1 + x[1] * x[1] + x[2] * x[2] + x[3] * x[3]); };
            double den = p[down][0] * w(p[down]) - p[up][0] * w(p[up]), num = p[down][0] * p[down][1] - p[up][0] * p[up][1];
            if (std::fabs(den) > 1e-6 * p[down][0]) same(num / den, get("shock_velocity"), p[down][0] / std::fabs(den), "the velocity of the shock", 1e-7);
            double x = get("shock_radius_interpolated");
            if (down == 0 || down + 1 >= rc.size()) same(rc[down], x, 0, "the interpolated radius of the shock");
            else
            {
                // the extremum of the parabola through three velocities
                double h0 = rc[down] - rc[down - 1], h1 = rc[down + 1] - rc[down], s0 = (v[down] - v[down - 1]) / h0, s1 = (v[down + 1] - v[down]) / h1, curve = (s1 - s0) / (h0 + h1), vm = std::max({std::fabs(v[down - 1]), std::fabs(v[down]), std::fabs(v[down + 1])});
                if (std::fabs(curve) * h0 * h1 > 1e-4 * vm && vm > 0) { double e = 0.5 * (rc[down - 1] + rc[down]) - 0.5 * s0 / curve; same(e, x, rc[down], "the interpolated radius of the shock", 1e-6); }
            }
        }
        ++c.transitions; c.state(vf::hash(out.at(runs::chkpt(k)).at("/solution/conserved").bytes));
    }
}
static void sedov(ctx& c)
{
    for (int newtonian : {0, 1}) for (int nr : c.pick(std::vector<int>{8, 20}, {6, 8, 13, 20, 40})) for (double R : {10., 50.}) for (double n : {0., 2.}) for (double p : {1., 0.01, 30.}) for (double d : {1., 0.1})
    {
        double T = c.pick(0.4, 2.0); if (newtonian && p / d > 1) T /= std::sqrt(p / d);
        strings a = {vf::cat("newtonian=", newtonian), vf::cat("nr=", nr), vf::cat("outer_radius=", R), vf::cat("density_index=", n), vf::cat("explosion_pressure=", p), vf::cat("explosion_density=", d), "cpi=0", "tsi=0", "dfi=0", vf::cat("tfinal=", T)};
        c.each([&] (auto& o) { o << "sedov" << args_of(a); }, [&] { ++c.nontrivial; bool gave_up; auto out = output("sedov", a, "sedov", &gave_up); if (gave_up) { c.state(778); return; } if (newtonian) reports<classical>(c, out, a); else reports<relativistic>(c, out, a); });
    }
}

// ------------------------------------------------------------------- cloud
static void cloud_reports(ctx& c)
{
    std::vector<strings> table;
    for (int rec : {1, 2}) for (double floor : {1e-8, 1e-3}) for (int nr : c.pick(std::vector<int>{4, 7}, {4, 7, 12})) for (double decades : {1., 1.5}) table.push_back({vf::cat("reconstruct_method=", rec), vf::cat("temperature_floor=", floor), vf::cat("nr=", nr), vf::cat("num_decades=", decades)});
    for (auto& more : std::vector<strings>{{"jet_opening_angle=0.5"}, {"jet_duration=0.005"}, {"jet_gamma_beta=2"}, {"jet_total_energy=1e48"}, {"density_index=1.5"}, {"cloud_mass=0.1"}, {"jet_delay_time=0.2"}, {"inner_radius=1e8"}, {"num_decades=2.5"}, {"density_index2=5"}, {"cloud_cutoff=1e10"}}) table.push_back(runs::add({"nr=8"}, more));
    // so many zones that a front is more than 64 zones out
    table.push_back({"nr=18", "num_decades=2.5", "tfinal=0.3"}); table.push_back({"nr=38", "num_decades=2.2", "tfinal=0.3"}); table.push_back({"nr=36", "num_decades=2.2", "tfinal=0.3", "reconstruct_method=1"});
    for (auto a : table)
    {
        a = runs::add({"num_decades=1", "cpi=0", "tsi=0", "dfi=0", vf::cat("tfinal=", c.pick(2.0, 6.0))}, a);
        c.each([&] (auto& o) { o << "cloud" << args_of(a); }, [&]
        {
            ++c.nontrivial;
            bool gave_up; auto out = output("cloud", a, "cloud", &gave_up); if (gave_up) { c.state(779); return; }
            int n = runs::count(out); CHECK(n >= 3, "only ", n, " checkpoints");
            auto u = units_of(a); double light = 2.998e10, E = u.mass * light * light, L3 = u.length * u.length * u.length;
            auto first = read_cloud(out.at(runs::chkpt(0)));
            {
                int nr = int(option(a, "nr", 256)); double dec = option(a, "num_decades", 2);
                CHECK(first.nr() == size_t(dec * nr) && first.nq() == size_t(nr), "the grid has ", first.nr(), " by ", first.nq(), " zones");
                same(1, first.r[0], 0, "the inner radius"); same(std::pow(10, dec), first.r.back(), 0, "the outer radius"); for (size_t i = 1; i < first.nr(); ++i) same(first.r[i] / first.r[i - 1], first.r[i + 1] / first.r[i], 0, "the radial spacing");
                for (size_t j = 0; j <= first.nq(); ++j) same(M_PI * j / nr, first.q[j], 1, "a polar angle");
                auto model = mara::cloud_and_envelop_model().with_inner_radius(u.length).with_cloud_index(option(a, "density_index", 2)); double delay = option(a, "jet_delay_time", 1);
                auto p = states(first, 0);
                for (size_t i = 0; i < first.nr(); ++i) for (size_t j = 0; j < first.nq(); ++j)
                {
                    double r = 0.5 * (first.r[i] + first.r[i + 1]) * u.length, d = model.density_at(r, delay) / (u.mass / L3); auto& x = p[i * first.nq() + j];
                    same(d, x[0], 0, vf::cat("the initial density at ", r), 1e-7); same(model.gamma_beta_at(r, delay), x[1], 1, vf::cat("the initial velocity at ", r), 1e-7); for (int k = 2; k < 4; ++k) same(0, x[k], 1, "the initial transverse velocity");
                    same(1e-6 * d, x[4], d * 1e-6 * (1 + x[1] * x[1]) * (1 + x[1] * x[1]), vf::cat("the initial pressure at ", r), 1e-3);
                }
            }
            for (int k = 0; k < n; ++k)
            {
                auto b = read_cloud(out.at(runs::chkpt(k))); CHECK(out.count(numbered("diagnostics", k)), "there are no diagnostics ", k); auto& d = out.at(numbered("diagnostics", k));
                auto p = states(b, option(a, "temperature_floor", 1e-8)); size_t nr = b.nr(), nq = b.nq();
                vec rho, pre, s, v, flow, R, total(nq, 0.0), omega; for (double x : b.r) R.push_back(x * u.length);
                auto luminosity = [&] (const five& x) { double W2 = 1 + x[1] * x[1] + x[2] * x[2] + x[3] * x[3], W = std::sqrt(W2); return (x[0] + x[4] * G / (G - 1)) * W * x[1] - x[0] * x[1]; };   // energy flux without rest mass
                for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nq; ++j) { auto& x = p[i * nq + j]; rho.push_back(x[0] * u.mass / L3); pre.push_back(x[4] * E / L3); s.push_back(relativistic::entropy(x)); v.push_back(x[1]); flow.push_back(luminosity(x) * radial_area(b, i, j) * E / u.time); total[j] += b.u[i * nq + j][4] * E; }
                for (size_t j = 0; j < nq; ++j) omega.push_back(2 * M_PI * (std::cos(b.q[j]) - std::cos(b.q[j + 1])));
                same(b.time * u.time, number(d, "/time"), 0, "time");
                each_positive(rho, doubles(d, "/mass_density"), "density"); each_positive(pre, doubles(d, "/gas_pressure"), "pressure"); same(s, doubles(d, "/specific_entropy"), "entropy", 1e-7); same(v, doubles(d, "/radial_gamma_beta"), "velocity");
                same(flow, doubles(d, "/radial_energy_flow"), "energy flow", 1e-6); same(R, doubles(d, "/radial_vertices"), "radii"); same(b.q, doubles(d, "/polar_vertices"), "angles"); same(omega, doubles(d, "/solid_angle_at_theta"), "solid angles"); same(total, doubles(d, "/total_energy_at_theta"), "energy per angle");
                std::map<std::string, vec> col; for (auto name : {"shock_midpoint_radius", "shock_upstream_radius", "shock_pressure_radius", "shock_luminosity_radius", "postshock_flow_gamma", "postshock_flow_power", "postshock_flow_power02", "postshock_flow_power04", "postshock_flow_power08", "postshock_flow_power16", "postshock_flow_power32", "postshock_flow_power64", "postshock_flow_power_max"}) { col[name] = doubles(d, std::string("/") + name); CHECK(col[name].size() == nq, name, " has ", col[name].size(), " values"); }
                for (size_t j = 0; j < nq; ++j)
                {
                    std::vector<five> line; vec rc, lum; for (size_t i = 0; i < nr; ++i) { line.push_back(p[i * nq + j]); rc.push_back(0.5 * (b.r[i] + b.r[i + 1]) * u.length); lum.push_back(luminosity(line.back()) * 0.5 * (radial_area(b, i, j) + radial_area(b, i + 1, j)) * E / u.time); }
                    auto f = locate<relativistic>(line); double big = 0; for (double x : lum) big = std::max(big, std::fabs(x));
                    auto in = [&] (double x) { for (size_t i = 0; i < nr; ++i) if (std::fabs(rc[i] - x) <= 1e-9 * x) return i; vf::fail(vf::cat("a radius is reported as ", x, ", which is not the centre of a zone")); };
                    if (! f.sure) continue;
                    same(rc[f.at], col["shock_midpoint_radius"][j], 0, "the radius of the shock");
                    size_t up = in(col["shock_upstream_radius"][j]), down = in(col["shock_pressure_radius"][j]), top = in(col["shock_luminosity_radius"][j]);
                    if (f.sure_ahead) CHECK(up == f.ahead, "the place ahead of the shock is reported as ", rc[up], " instead of ", rc[f.ahead]);
                    if (f.sure_behind) CHECK(down == f.behind, "the place behind the shock is reported as ", rc[down], " instead of ", rc[f.behind]);
                    bool sure = true; size_t t = behind(lum, f.at, sure); if (sure) CHECK(top == t, "the place of the greatest power is reported as ", rc[top], " instead of ", rc[t]);
                    auto& x = line[down]; same(std::sqrt(1 + x[1] * x[1] + x[2] * x[2] + x[3] * x[3]), col["postshock_flow_gamma"][j], 0, "the Lorentz factor behind the shock", 1e-7);
                    auto power = [&] (size_t i, const char* name) { same(lum[i], col[name][j], 1e-3 * big, name, 1e-6); };
                    auto back = [&] (size_t m) { return f.at > m ? f.at - m : 0; };
                    power(down, "postshock_flow_power"); power(top, "postshock_flow_power_max"); power(back(2), "postshock_flow_power02"); power(back(4), "postshock_flow_power04"); power(back(8), "postshock_flow_power08"); power(back(16), "postshock_flow_power16"); power(back(32), "postshock_flow_power32"); power(back(64), "postshock_flow_power64");
                }
                ++c.transitions; c.state(vf::hash(out.at(runs::chkpt(k)).at("/solution/conserved").bytes));
            }
        });
    }
}

// ------------------------------------------------------------------ binary
static void put(vec& r, const mara::full_orbital_elements_t& e) { r.insert(r.end(), {e.pomega, e.tau, e.cm_position_x, e.cm_position_y, e.cm_velocity_x, e.cm_velocity_y, e.elements.separation, e.elements.total_mass, e.elements.mass_ratio, e.elements.eccentricity}); }
template<typename T> static vec ledger(const T& s)
{
    vec r = {s.time.value, s.mass_accreted_on[0].value, s.mass_accreted_on[1].value, s.mass_ejected.value, s.angular_momentum_accreted_on[0].value, s.angular_momentum_accreted_on[1].value, s.integrated_torque_on[0].value, s.integrated_torque_on[1].value, s.angular_momentum_ejected.value, s.work_done_on[0].value, s.work_done_on[1].value};
    put(r, s.orbital_elements); put(r, s.orbital_elements_acc); put(r, s.orbital_elements_grav);
    return r;
}
static void binary_reports(ctx& c)
{
    strings base = {"depth=1", "block_size=4", "domain_radius=6", "cpi=0", "tsi=0", "dfi=0", "threaded=1", "tfinal=0.2", "axisymmetric_cs2=1", "sink_radius=0.8", "softening_radius=0.3"};
    std::vector<strings> table;
    for (int q : {0, 1}) for (int depth : {0, 1, 2, 3}) for (int b : {2, 4}) if (depth < 3 || b == 2) table.push_back({vf::cat("conserve_linear_p=", q), vf::cat("depth=", depth), vf::cat("block_size=", b)});
    for (auto& more : std::vector<strings>{{"begin_live_binary=0"}, {"mass_ratio=0.3", "eccentricity=0.4"}, {"separation=0"}, {"buffer_damping_rate=0"}, {"counter_rotate=1"}, {"mdot=1e-4"}, {"mach_number=5"}, {"disk_radius=3"}, {"disk_mass=0.5"}, {"ambient_density=0.1"}, {"softening_radius=0.1"}, {"mass_ratio=0.5", "begin_live_binary=0", "eccentricity=0.2", "disk_mass=0.1"}, {"domain_radius=3", "depth=2"}})
        for (int q : {0, 1}) table.push_back(runs::add({vf::cat("conserve_linear_p=", q)}, more));
    for (auto more : table)
    {
        auto a = runs::add(base, more);
        c.each([&] (auto& o) { o << "binary" << args_of(more); }, [&]
        {
            ++c.nontrivial;
            auto dir = sim::fresh("binary"); runs::setup setup{"binary", a, ""};
            auto run = sim::run("binary", runs::arguments(setup), dir); bool gave_up = run.what.find("negative density in updated state") != std::string::npos; CHECK(run.ok() || gave_up, run.what);
            bool linear = option(a, "conserve_linear_p", 1); double Rd = option(a, "domain_radius", 12); int N = int(option(a, "block_size", 24));
            int n = 0; while (sim::exists(dir + "/out/" + runs::chkpt(n))) ++n; CHECK(n >= (gave_up ? 1 : 2), "only ", n, " checkpoints");
            for (int k = 0; k < n; ++k)
            {
                auto f = h5::File(dir + "/out/" + runs::chkpt(k), "r"); auto st = mara::read<binary::state_t>(f.open_group("/"), "/"); auto& s = st.solution;
                CHECK(sim::exists(dir + "/out/" + numbered("diagnostics", k)), "there are no diagnostics ", k);
                auto g = h5::File(dir + "/out/" + numbered("diagnostics", k), "r"); auto d = mara::read<binary::diagnostic_fields_t>(g.open_group("/"), "/");
                CHECK(d.time.value == s.time.value, "the diagnostics are for time ", d.time.value, " instead of ", s.time.value);
                auto two = mara::compute_two_body_state(s.orbital_elements, s.time.value);
                auto places = [&] (auto& x, const char* what) { same({two.body1.position_x, two.body1.position_y, two.body2.position_x, two.body2.position_y}, {x.position_of_mass1[0].value, x.position_of_mass1[1].value, x.position_of_mass2[0].value, x.position_of_mass2[1].value}, what); };
                places(d, "the places of the masses");
                double mass = 0, angmom = 0, size = 0; std::set<std::vector<long>> seen;
                auto index = linear ? s.conserved_u.indexes() : s.conserved_q.indexes();
                CHECK(d.sigma.size() == index.size() && d.radial_velocity.size() == index.size() && d.phi_velocity.size() == index.size() && d.vertices.size() == index.size(), "the diagnostics have another mesh");
                index.sink([&] (auto i)
                {
                    auto v = d.vertices.at(i); double h = 2 * Rd / (1 << i.level), x0 = -Rd + h * i.coordinates[0], y0 = -Rd + h * i.coordinates[1];
                    for (int p = 0; p <= N; ++p) for (int q = 0; q <= N; ++q) { same(x0 + h * p / N, v(p, q)[0].value, Rd, "the place of a vertex"); same(y0 + h * q / N, v(p, q)[1].value, Rd, "the place of a vertex"); }
                    for (int p = 0; p < N; ++p) for (int q = 0; q < N; ++q)
                    {
                        double x = x0 + h * (p + 0.5) / N, y = y0 + h * (q + 0.5) / N, r = std::hypot(x, y), dA = h * h / N / N, sig, vr, vp;
                        if (linear) { auto u = s.conserved_u.at(i)(p, q); sig = mara::get<0>(u).value; double vx = mara::get<1>(u).value / sig, vy = mara::get<2>(u).value / sig; vr = (vx * x + vy * y) / r; vp = (vy * x - vx * y) / r; }
                        else { auto u = s.conserved_q.at(i)(p, q); sig = mara::get<0>(u).value; vr = mara::get<1>(u).value / sig / r; vp = mara::get<2>(u).value / sig / r; }
                        mass += sig * dA; angmom += sig * r * vp * dA; size += sig * r * (std::fabs(vp) + std::fabs(vr)) * dA;
                        same(sig, d.sigma.at(i)(p, q), 0, "density"); same(vr, d.radial_velocity.at(i)(p, q), 1, "radial velocity"); same(vp, d.phi_velocity.at(i)(p, q), 1, "angular velocity");
                        if (k == 0)
                        {
                            double rd = option(a, "disk_radius", 2), rs = option(a, "softening_radius", 0.05), Ma = option(a, "mach_number", 10), m = r / rd, s0 = option(a, "disk_mass", 1e-3) / (17.0618 * rd * rd), s1 = s0 * option(a, "ambient_density", 1e-4), want = s0 * std::exp(-0.5 * (m - 1) * (m - 1)) + s1;
                            same(want, sig, 0, vf::cat("the initial density at radius ", r), 1e-4);
                            double spin = std::sqrt(1 / (r + rs) + (m * (1 - m) * (1 - s1 / want) - 1) / (Ma * Ma * (r + rs))) * (option(a, "counter_rotate", 0) ? -1 : 1);
                            same(spin, vp, 0, vf::cat("the initial rotation at radius ", r), 1e-6);
                            double drift = r > 2 ? -option(a, "mdot", 0) / (2 * M_PI * r * want) : 0; if (std::fabs(r - 2) > 1e-9) same(drift, d.radial_velocity.at(i)(p, q), 1, vf::cat("the initial drift at radius ", r), 1e-6);
                        }
                    }
                });
                auto rows = st.time_series.size(); CHECK(rows == size_t(k + 1), "there are ", rows, " samples in checkpoint ", k);
                auto sample = st.time_series.head();
                same(ledger(s), ledger(sample), "a sample of the time series", 1e-12); places(sample, "the places of the masses in the time series");
                same(mass, sample.disk_mass.value, 0, "the mass of the disk"); same(angmom, sample.disk_angular_momentum.value, size, "the angular momentum of the disk");
                if (k == 0) { auto& e = s.orbital_elements; same({option(a, "separation", 1), 1, option(a, "mass_ratio", 1), option(a, "eccentricity", 0)}, {e.elements.separation, e.elements.total_mass, e.elements.mass_ratio, e.elements.eccentricity}, "the initial orbit"); auto l = ledger(s); for (int q = 0; q < 11; ++q) CHECK(l[q] == 0, "the ledger begins with ", l[q]); }
                // earlier samples are kept, in order of time
                double last = 1e300; size_t m = 0; for (auto x : st.time_series) { CHECK(x.time.value < last, "samples are out of order"); last = x.time.value; ++m; } CHECK(m == rows, "samples are missing");
                ++c.transitions; c.state(vf::bits(mass)); c.state(vf::bits(angmom));
            }
            sim::wipe(dir);
        });
    }
}
int main(int argc, char** argv)
{
    if (sim::is_child(argc, argv)) return sim::child(argc, argv);
    return vf::main(argc, argv, {{"sedov", sedov}, {"cloud", cloud_reports}, {"binary", binary_reports}});
}
