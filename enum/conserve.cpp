// C21: steps of the simulations neither create nor destroy what they conserve.
#include "trees.hpp"
#include "runs.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "app_config.hpp"
#include "app_schedule.hpp"
#include "subprog_binary.hpp"
#include "physics_iso2d.hpp"
using vf::ctx;
using ref::addr;
using ref::shape;
using sim::strings;
typedef std::vector<double> vec;

// ------------------------------------------------------------------- meshes
static std::size_t depth_below(const shape<2>& s, const addr<2>& a) { std::size_t d = 0; for (auto& b : s.branches) if (b.inside(a)) d = std::max(d, b.level + 1 - a.level); return d; }
static shape<2> balance(shape<2> s)
{
    for (bool more = true; more; )
    {
        more = false;
        for (auto& l : s.leaves()) for (int k = 0; k < 2; ++k) for (long d : {-1, 1}) { auto n = l.shifted(k, d); if (s.branches.count(n) && depth_below(s, n) > 1 && ! s.branches.count(l)) { s.branches.insert(l); more = true; } }
    }
    return s;
}
static std::vector<shape<2>> meshes(std::size_t depth, std::size_t branches)
{
    std::vector<shape<2>> r; std::set<std::string> seen;
    ref::trees<2>(depth, branches, [&] (const shape<2>& s) { auto b = balance(s); if (seen.insert(b.str()).second) r.push_back(b); });
    return r;
}
static shape<2> rotated(const shape<2>& s) { shape<2> r; for (auto& b : s.branches) { addr<2> a; a.level = b.level; a.x = {(1u << b.level) - 1 - b.x[1], b.x[0]}; r.branches.insert(a); } return r; }

// ------------------------------------------------------------ states of the gas
// primitive state as a function of the level and the global cell index, so that
// the same state can be laid on a rotated mesh
struct gas { double s, u, v; };
enum kind { uniform, rough, island };
static double noise(uint64_t a, uint64_t b, uint64_t c, uint64_t k) { return double(vf::mix(vf::mix(vf::mix(a * 7919 + 13, b), c), k) >> 11) / double(1ull << 53); }
static gas gas_at(kind k, std::size_t level, long I, long J, long N, int turn)
{
    for (int t = 0; t < turn; ++t) { long i = J, j = N - 1 - I; I = i; J = j; }   // back to where it came from
    gas g = {1.25, 0.35, -0.2};
    double edge = std::max(std::fabs((I + 0.5) / N - 0.5), std::fabs((J + 0.5) / N - 0.5));
    if (k == island) g = {1.25, 0, 0};
    if (k == rough || (k == island && edge < 0.26)) g = {0.6 + noise(level, I, J, 1), 0.5 * noise(level, I, J, 2) - 0.25, 0.5 * noise(level, I, J, 3) - 0.25};
    for (int t = 0; t < turn; ++t) { double u = -g.v, v = g.u; g.u = u; g.v = v; }
    return g;
}

// ------------------------------------------------------------ a binary problem
struct problem { binary::solver_data_t data; binary::solution_t now; };
static mara::config_t config(const strings& args)
{
    std::vector<const char*> a = {"binary"}; for (auto& s : args) a.push_back(s.c_str());
    return binary::create_run_config(int(a.size()), a.data());
}
static problem make(const shape<2>& s, const strings& args, kind k, int turn=0)
{
    auto all = args; all.insert(all.begin(), {"depth=1", "focus_factor=0"});
    auto cfg = config(all);
    binary::set_scheme_globals(cfg);
    problem p{binary::create_solver_data(cfg), binary::create_solution(cfg)};
    auto bs = p.data.block_size; double R = p.data.domain_radius.value;
    auto tree = ref::build(s);
    auto vert = [=] (const addr<2>& a) { double h = 2 * R / (bs << a.level); return nd::make_array([=] (auto i) { return binary::location_2d_t{-R + h * (a.x[0] * bs + i[0]), -R + h * (a.x[1] * bs + i[1])}; }, nd::make_shape(bs + 1, bs + 1)) | nd::to_shared(); };
    auto cent = [=] (const addr<2>& a) { double h = 2 * R / (bs << a.level); return nd::make_array([=] (auto i) { return binary::location_2d_t{-R + h * (a.x[0] * bs + i[0] + 0.5), -R + h * (a.x[1] * bs + i[1] + 0.5)}; }, nd::make_shape(bs, bs)) | nd::to_shared(); };
    auto area = [=] (const addr<2>& a) { double h = 2 * R / (bs << a.level); return nd::make_array([=] (auto i) { return mara::unit_area<double>(h * h); }, nd::make_shape(bs, bs)) | nd::to_shared(); };
    double rate = cfg.get_double("buffer_damping_rate");
    auto buff = [=] (const addr<2>& a) { double h = 2 * R / (bs << a.level); return nd::make_array([=] (auto i) { double x = -R + h * (a.x[0] * bs + i[0] + 0.5), y = -R + h * (a.x[1] * bs + i[1] + 0.5); return mara::unit_rate<double>(rate * (1 + std::tanh(3 * (std::sqrt(x * x + y * y) - R)))); }, nd::make_shape(bs, bs)) | nd::to_shared(); };
    auto prim = [=] (const addr<2>& a, kind k) { return nd::make_array([=] (auto i) { auto g = gas_at(k, a.level, long(a.x[0] * bs + i[0]), long(a.x[1] * bs + i[1]), long(bs << a.level), turn); return mara::iso2d::primitive_t().with_sigma(g.s).with_velocity_x(g.u).with_velocity_y(g.v); }, nd::make_shape(bs, bs)) | nd::to_shared(); };
    auto to_u = [=] (kind k) { return [=] (const addr<2>& a) { return prim(a, k) | nd::map([] (auto p) { return p.to_conserved_per_area(); }) | nd::to_shared(); }; };
    auto to_q = [=] (kind k) { return [=] (const addr<2>& a) { return nd::zip(cent(a), prim(a, k)) | nd::apply([] (auto x, auto p) { return p.to_conserved_angmom_per_area(x); }) | nd::to_shared(); }; };
    p.data.vertices = tree.map(vert); p.data.cell_centers = tree.map(cent); p.data.cell_areas = tree.map(area); p.data.buffer_rate_field = tree.map(buff);
    p.data.gst_suppr_radius = 0.5 * 2 * R / (bs << s.depth());
    if (p.data.conserve_linear_p) { p.now.conserved_u = tree.map(to_u(k)); p.data.initial_conserved_u = tree.map(to_u(uniform)); }
    else                          { p.now.conserved_q = tree.map(to_q(k)); p.data.initial_conserved_q = tree.map(to_q(uniform)); }
    p.now.orbital_elements.pomega += turn * M_PI / 2;
    return p;
}
// quiet: no gravity, no sinks, no buffer and a sound speed of one everywhere
static strings quiet(strings more) { strings r = {"softening_radius=1e6", "mach_number=1e-3", "sink_rate=0", "buffer_damping_rate=0", "domain_radius=1"}; return runs::add(r, more); }
static strings full(strings more) { strings r = {"softening_radius=0.2", "mach_number=4", "sink_rate=0.6", "sink_radius=0.4", "buffer_damping_rate=0", "domain_radius=1.5", "axisymmetric_cs2=1", "begin_live_binary=1e9"}; return runs::add(r, more); }

struct sums { double m = 0, px = 0, py = 0, lz = 0, size = 0, force = 0; };
static sums total(const binary::solution_t& s, const binary::solver_data_t& d)
{
    sums r;
    d.cell_centers.indexes().sink([&] (auto index)
    {
        auto X = d.cell_centers.at(index); auto A = d.cell_areas.at(index);
        for (std::size_t i = 0; i < X.shape(0); ++i) for (std::size_t j = 0; j < X.shape(1); ++j)
        {
            double x = X(i, j)[0].value, y = X(i, j)[1].value, a = A(i, j).value, m, px, py, lz;
            if (d.conserve_linear_p) { auto u = s.conserved_u.at(index)(i, j); m = mara::get<0>(u).value; px = mara::get<1>(u).value; py = mara::get<2>(u).value; lz = x * py - y * px; }
            else { auto q = s.conserved_q.at(index)(i, j); m = mara::get<0>(q).value; double sr = mara::get<1>(q).value; lz = mara::get<2>(q).value; px = (x * sr - y * lz) / (x * x + y * y); py = (y * sr + x * lz) / (x * x + y * y); }
            r.m += m * a; r.px += px * a; r.py += py * a; r.lz += lz * a; r.size += a * (m + std::fabs(px) + std::fabs(py) + std::fabs(lz));
        }
    });
    return r;
}
// all values of a solution, in the order of positions
static vec flat(const binary::solution_t& s, const binary::solver_data_t& d)
{
    vec r;
    d.cell_centers.indexes().sink([&] (auto index)
    {
        auto n = d.block_size;
        for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j)
            if (d.conserve_linear_p) { auto u = s.conserved_u.at(index)(i, j); r.insert(r.end(), {mara::get<0>(u).value, mara::get<1>(u).value, mara::get<2>(u).value}); }
            else { auto u = s.conserved_q.at(index)(i, j); r.insert(r.end(), {mara::get<0>(u).value, mara::get<1>(u).value, mara::get<2>(u).value}); }
    });
    return r;
}
static vec elements(const mara::full_orbital_elements_t& e) { return {e.pomega, e.tau, e.cm_position_x, e.cm_position_y, e.cm_velocity_x, e.cm_velocity_y, e.elements.separation, e.elements.total_mass, e.elements.mass_ratio, e.elements.eccentricity}; }
static vec ledger(const binary::solution_t& s)
{
    vec r = {s.mass_accreted_on[0].value, s.mass_accreted_on[1].value, s.angular_momentum_accreted_on[0].value, s.angular_momentum_accreted_on[1].value, s.integrated_torque_on[0].value, s.integrated_torque_on[1].value, s.mass_ejected.value, s.angular_momentum_ejected.value};
    return r;
}
static void near(const vec& a, const vec& b, double tol, const char* what)
{
    CHECK(a.size() == b.size(), what);
    double m = 0; for (double x : a) m = std::max(m, std::fabs(x));
    for (size_t i = 0; i < a.size(); ++i) CHECK(std::fabs(a[i] - b[i]) <= tol * (1 + m), what, ": value ", i, " is ", b[i], " instead of ", a[i]);
}
static double step_of(const problem& p, double cfl) { return cfl * binary::maximum_timestep(p.now, p.data); }
static void finite(const vec& v) { for (double x : v) CHECK(std::isfinite(x), "a value is not finite"); }

// the time step keeps every signal within a cell
static void check_step(const problem& p)
{
    double want = 1e300, R = p.data.domain_radius.value; auto prim = binary::recover_primitive(p.now, p.data);
    p.data.cell_centers.indexes().sink([&] (auto index)
    {
        double h = 2 * R / (p.data.block_size << index.level);
        for (std::size_t i = 0; i < p.data.block_size; ++i) for (std::size_t j = 0; j < p.data.block_size; ++j)
        {
            auto q = prim.at(index)(i, j);
            want = std::min(want, h / (std::max(std::fabs(q.velocity_x()), std::fabs(q.velocity_y())) + 1.0));
        }
    });
    double got = binary::maximum_timestep(p.now, p.data);
    CHECK(std::fabs(got - want) <= 1e-9 * want, "largest time step is ", got, " instead of ", want);
}
static void count(ctx& c, const shape<2>& s, const std::string& what, long steps) { c.step(steps); c.interesting(s.depth() > 1); c.state(vf::mix(s.hash(), vf::hash(what))); }

// ------------------------------------------------ without sources: linear momentum
static void momentum(ctx& c)
{
    for (int bs : {4, 2}) for (auto& s : bs == 2 ? meshes(3, c.pick(3, 5)) : meshes(3, c.pick(3, 4))) for (auto k : {uniform, rough}) for (const char* extra : {"", "plm_theta=1.0", "nu=0.02", "reconstruct_method=pcm", "safe"})
    {
        if (k == uniform && *extra == 'p') continue;
        if (bs == 2 && *extra && ! c.thorough()) continue;
        c.each([&] (auto& o) { o << "blocks of " << bs << " mesh " << s.str() << (k == rough ? " rough " : " uniform ") << extra; }, [&]
        {
            count(c, s, vf::cat("m", bs, k, extra), 3);
            bool safe = ! strcmp(extra, "safe");
            strings more = {vf::cat("block_size=", bs), "alpha=0"}; if (*extra && ! safe) more.push_back(extra);
            auto p = make(s, quiet(more), k);
            auto a = total(p.now, p.data); auto first = flat(p.now, p.data);
            if (bs == 4) check_step(p);
            CHECK(std::fabs(binary::disk_mass(p.now, p.data).value - a.m) <= 1e-13 * a.m, "disk mass is ", binary::disk_mass(p.now, p.data).value, " instead of ", a.m);
            for (int n = 0; n < 2; ++n)
            {
                double dt = step_of(p, 0.3), t0 = p.now.time.value;
                auto it = p.now.iteration;
                p.now = binary::advance(p.now, p.data, dt, safe);
                CHECK(std::fabs(p.now.time.value - t0 - dt) <= 1e-15 * (1 + t0) && p.now.iteration == it + 1, "time or iteration");
                auto b = total(p.now, p.data); finite(flat(p.now, p.data));
                CHECK(std::fabs(b.m - a.m) <= 1e-13 * a.size, "mass ", a.m, " became ", b.m, " in step ", n);
                CHECK(std::fabs(b.px - a.px) <= 1e-13 * a.size && std::fabs(b.py - a.py) <= 1e-13 * a.size, "momentum ", a.px, ",", a.py, " became ", b.px, ",", b.py, " in step ", n);
                for (double x : ledger(p.now)) CHECK(std::fabs(x) <= 1e-12, "something was accreted or ejected: ", x);
                if (k == uniform) near(first, flat(p.now, p.data), 1e-12, "uniform state");
            }
            if (k == rough) { double d = 0; auto last = flat(p.now, p.data); for (size_t i = 0; i < first.size(); ++i) d = std::max(d, std::fabs(first[i] - last[i])); CHECK(d > 1e-3, "nothing moved"); }
        });
    }
}

// -------------------------------- with sources: mass and angular momentum ledger
static void sources(ctx& c)
{
    for (int q : {0, 1}) for (auto& s : meshes(3, c.pick(3, 4))) for (const char* extra : {"", "nu=0.02", "buffer_damping_rate=3", "mass_ratio=0.3", "eccentricity=0.4", "no_accretion_force=1", "alpha_cutoff_radius=0.5", "axisymmetric_cs2=0", "begin_live_binary=-1", "plm_theta=1.0"})
    {
        if (*extra && ! c.thorough() && s.branches.size() > 2) continue;
        c.each([&] (auto& o) { o << (q ? "angular" : "linear") << " momentum, mesh " << s.str() << " " << extra; }, [&]
        {
            auto is = [&] (const char* x) { return ! strncmp(extra, x, strlen(x)); };
            bool buffer = is("buffer"), none = is("no_acc"), skew = is("axisym"), live = is("begin");
            int steps = skew ? 1 : 3;   // see the group 'boundary'
            count(c, s, vf::cat("s", q, extra), steps);
            auto args = full({"block_size=4", vf::cat("conserve_linear_p=", 1 - q)}); if (*extra) args = runs::add(args, {extra});
            auto p = make(s, args, island);
            auto a = total(p.now, p.data);
            CHECK(std::fabs(binary::disk_mass(p.now, p.data).value - a.m) <= 1e-13 * a.m && std::fabs(binary::disk_angular_momentum(p.now, p.data).value - a.lz) <= 1e-13 * a.size, "disk mass or angular momentum");
            for (int n = 0; n < steps; ++n)
            {
                auto old = p.now; auto was = total(old, p.data); double dt = step_of(p, 0.05), tol = 2e-9;
                p.now = binary::advance(p.now, p.data, dt);
                auto b = total(p.now, p.data); auto L = ledger(p.now), K = ledger(old);
                finite(flat(p.now, p.data)); finite(L);
                double m = (L[0] - K[0]) + (L[1] - K[1]) + (L[6] - K[6]);
                CHECK(std::fabs(was.m - b.m - m) <= 1e-13 * a.size, "mass fell by ", was.m - b.m, " but the ledger says ", m, " in step ", n);
                CHECK(L[0] > K[0] && L[1] > K[1], "nothing was accreted"); CHECK(buffer ? L[6] != 0 : L[6] == 0 && L[7] == 0, "mass ejected ", L[6]);
                if (q)
                {
                    double l = (L[2] - K[2]) + (L[3] - K[3]) + (L[4] - K[4]) + (L[5] - K[5]) + (L[7] - K[7]);
                    CHECK(std::fabs(was.lz - b.lz - l) <= 1e-12 * a.size, "angular momentum fell by ", was.lz - b.lz, " but the ledger says ", l, " in step ", n);
                }
                // what the bodies receive is what the gas lost
                auto e0 = old.orbital_elements; auto ea = p.now.orbital_elements_acc - old.orbital_elements_acc, eg = p.now.orbital_elements_grav - old.orbital_elements_grav;
                auto two = mara::compute_two_body_state(e0, old.time.value), acc = mara::compute_two_body_state(e0 + ea, old.time.value), grv = mara::compute_two_body_state(e0 + eg, old.time.value);
                CHECK(std::fabs(acc.body1.mass - two.body1.mass - (L[0] - K[0])) <= tol && std::fabs(acc.body2.mass - two.body2.mass - (L[1] - K[1])) <= tol, "masses of the bodies");
                CHECK(std::fabs(grv.body1.mass - two.body1.mass) <= tol && std::fabs(grv.body2.mass - two.body2.mass) <= tol, "gravity changes masses");
                auto gain = [&] (const mara::point_mass_t& x, const mara::point_mass_t& y) { return std::array<double, 2>{x.mass * x.velocity_x - y.mass * y.velocity_x, x.mass * x.velocity_y - y.mass * y.velocity_y}; };
                for (auto& [x, y] : {std::make_pair(acc.body1, two.body1), std::make_pair(acc.body2, two.body2), std::make_pair(grv.body1, two.body1), std::make_pair(grv.body2, two.body2)})
                    CHECK(std::hypot(x.position_x - y.position_x, x.position_y - y.position_y) <= tol, "the perturbation moves a body by ", std::hypot(x.position_x - y.position_x, x.position_y - y.position_y));
                auto g1 = gain(acc.body1, two.body1), g2 = gain(acc.body2, two.body2), h1 = gain(grv.body1, two.body1), h2 = gain(grv.body2, two.body2);
                if (none) CHECK(std::hypot(acc.body1.velocity_x - two.body1.velocity_x, acc.body1.velocity_y - two.body1.velocity_y) <= tol && std::hypot(acc.body2.velocity_x - two.body2.velocity_x, acc.body2.velocity_y - two.body2.velocity_y) <= tol, "accretion acts on the velocities");
                if (! q && ! none && ! buffer && ! skew)
                {
                    double px = g1[0] + g2[0] + h1[0] + h2[0], py = g1[1] + g2[1] + h1[1] + h2[1];
                    CHECK(std::fabs(was.px - b.px - px) <= tol && std::fabs(was.py - b.py - py) <= tol, "the gas lost momentum ", was.px - b.px, ",", was.py - b.py, " and the bodies gained ", px, ",", py);
                }
                if (! q && ! none)
                {
                    auto kin = [&] (const mara::point_mass_t& x) { return 0.5 * x.mass * (x.velocity_x * x.velocity_x + x.velocity_y * x.velocity_y); };
                    double w1 = p.now.work_done_on[0].value - old.work_done_on[0].value, w2 = p.now.work_done_on[1].value - old.work_done_on[1].value;
// each block adds its share separately, so that this holds to the order of the gain squared
                    auto slack = [&] (std::array<double, 2> g, double dm, double M) { double x = std::hypot(g[0], g[1]) + dm; return 4 * x * x / M + tol; };
                    CHECK(std::fabs(w1 - kin(acc.body1) + kin(two.body1)) <= slack(g1, L[0] - K[0], two.body1.mass) && std::fabs(w2 - kin(acc.body2) + kin(two.body2)) <= slack(g2, L[1] - K[1], two.body2.mass), "work done on the bodies is ", w1, ",", w2, " instead of ", kin(acc.body1) - kin(two.body1), ",", kin(acc.body2) - kin(two.body2));
                }
                auto want = elements(e0); if (live) { auto x = elements(e0 + ea + eg + mara::diff_cm(e0, dt)); want = x; }
                near(want, elements(p.now.orbital_elements), live ? 1e-12 : 0, live ? "orbit of a live binary" : "orbit of a binary that is not live");
                if (live) CHECK(std::fabs(p.now.orbital_elements.cm_position_x - e0.cm_position_x - ea.cm_position_x - eg.cm_position_x - dt * e0.cm_velocity_x) <= 1e-12, "centre of mass drifts");
            }
        });
    }
}

// the two sets of variables describe the same gas: same mass everywhere after
// one step, same accretion, torques and forces
static void variables(ctx& c)
{
    for (auto& s : meshes(3, c.pick(2, 4))) for (auto k : {island, rough}) for (const char* extra : {"", "nu=0.02", "buffer_damping_rate=3", "eccentricity=0.4", "axisymmetric_cs2=0"})
        c.each([&] (auto& o) { o << "mesh " << s.str() << (k == rough ? " rough " : " island ") << extra; }, [&]
        {
            count(c, s, vf::cat("v", k, extra), 2);
            auto args = full({"block_size=4"}); if (*extra) args = runs::add(args, {extra});
            auto p = make(s, args, k), q = make(s, runs::add(args, {"conserve_linear_p=0"}), k);
            double dt = step_of(p, 0.05); CHECK(std::fabs(step_of(q, 0.05) - dt) <= 1e-12 * dt, "time step");
            p.now = binary::advance(p.now, p.data, dt); q.now = binary::advance(q.now, q.data, dt);
            auto A = flat(p.now, p.data), B = flat(q.now, q.data);
            for (size_t i = 0; i < A.size(); i += 3) CHECK(std::fabs(A[i] - B[i]) <= 1e-11, "surface density ", A[i], " and ", B[i], " of cell ", i / 3);
            near(ledger(p.now), ledger(q.now), 1e-11, "ledger");
            near(elements(p.now.orbital_elements_acc), elements(q.now.orbital_elements_acc), 1e-8, "accretion on the orbit"); near(elements(p.now.orbital_elements_grav), elements(q.now.orbital_elements_grav), 1e-8, "gravity on the orbit");
        });
}

// a problem turned by a quarter gives the turned result
static void turned(ctx& c)
{
    for (int q : {0, 1}) for (auto& s : meshes(3, c.pick(3, 4))) for (const char* extra : {"", "nu=0.02", "buffer_damping_rate=3", "axisymmetric_cs2=0"})
    {
        if (*extra && ! c.thorough() && s.branches.size() > 2) continue;
        c.each([&] (auto& o) { o << (q ? "angular" : "linear") << " momentum, mesh " << s.str() << " " << extra; }, [&]
        {
            count(c, s, vf::cat("t", q, extra), 2);
            auto args = full({"block_size=4", vf::cat("conserve_linear_p=", 1 - q), "eccentricity=0.3", "mass_ratio=0.5"}); if (*extra) args = runs::add(args, {extra});
            auto p = make(s, args, rough), r = make(rotated(s), args, rough, 1);
            if (! strncmp(extra, "buffer", 6)) { p.data.initial_conserved_u = p.now.conserved_u; p.data.initial_conserved_q = p.now.conserved_q; r.data.initial_conserved_u = r.now.conserved_u; r.data.initial_conserved_q = r.now.conserved_q; }
            double dt = step_of(p, 0.05); CHECK(std::fabs(step_of(r, 0.05) - dt) <= 1e-9 * dt, "time step");
            for (int n = 0; n < 2; ++n) { p.now = binary::advance(p.now, p.data, dt); r.now = binary::advance(r.now, r.data, dt); }
            auto bs = p.data.block_size;
            p.data.cell_centers.indexes().sink([&] (auto index)
            {
                auto a = addr<2>::of(index); addr<2> b; b.level = a.level; b.x = {(1u << a.level) - 1 - a.x[1], a.x[0]};
                for (size_t i = 0; i < bs; ++i) for (size_t j = 0; j < bs; ++j)
                {
                    size_t I = bs - 1 - j, J = i;
                    if (q) { auto x = p.now.conserved_q.at(index)(i, j), y = r.now.conserved_q.at(b.index())(I, J); CHECK(vf::close(mara::get<0>(x).value, mara::get<0>(y).value, 1e-9, 1e-9) && vf::close(mara::get<1>(x).value, mara::get<1>(y).value, 1e-9, 1e-9) && vf::close(mara::get<2>(x).value, mara::get<2>(y).value, 1e-9, 1e-9), "block ", a, " cell ", i, ",", j); }
                    else { auto x = p.now.conserved_u.at(index)(i, j), y = r.now.conserved_u.at(b.index())(I, J); CHECK(vf::close(mara::get<0>(x).value, mara::get<0>(y).value, 1e-9, 1e-9) && vf::close(-mara::get<2>(x).value, mara::get<1>(y).value, 1e-9, 1e-9) && vf::close(mara::get<1>(x).value, mara::get<2>(y).value, 1e-9, 1e-9), "block ", a, " cell ", i, ",", j); }
                }
            });
            near(ledger(p.now), ledger(r.now), 1e-9, "ledger of the turned problem");
        });
    }
}

// options: threads change nothing, pcm means no extrapolation
static void options(ctx& c)
{
    for (int q : {0, 1}) for (auto& s : meshes(3, c.pick(2, 4)))
    {
        for (int n : {2, 3, 5}) c.each([&] (auto& o) { o << (q ? "angular" : "linear") << " momentum, mesh " << s.str() << " on " << n << " threads"; }, [&]
        {
            count(c, s, vf::cat("o", q, n), 4);
            auto args = full({"block_size=4", vf::cat("conserve_linear_p=", 1 - q)});
            auto p = make(s, args, rough); double dt = step_of(p, 0.05); for (int i = 0; i < 2; ++i) p.now = binary::advance(p.now, p.data, dt);
            auto r = make(s, runs::add(args, {vf::cat("threaded=", n)}), rough); for (int i = 0; i < 2; ++i) r.now = binary::advance(r.now, r.data, dt);
            near(flat(p.now, p.data), flat(r.now, r.data), 0, "state"); near(ledger(p.now), ledger(r.now), 0, "ledger"); near(elements(p.now.orbital_elements_acc), elements(r.now.orbital_elements_acc), 0, "orbit");
        });
        c.each([&] (auto& o) { o << (q ? "angular" : "linear") << " momentum, mesh " << s.str() << " with pcm"; }, [&]
        {
            count(c, s, vf::cat("p", q), 2);
            auto args = full({"block_size=4", vf::cat("conserve_linear_p=", 1 - q), "alpha=0"});
            auto p = make(s, runs::add(args, {"reconstruct_method=pcm"}), rough), r = make(s, args, rough), w = make(s, args, rough); double dt = step_of(p, 0.05);
            p.now = binary::advance(p.now, p.data, dt); r.now = binary::advance(r.now, r.data, dt, true); w.now = binary::advance(w.now, w.data, dt);
            near(flat(r.now, r.data), flat(p.now, p.data), 1e-12, "piecewise constant reconstruction");
            CHECK(flat(w.now, w.data) != flat(p.now, p.data), "piecewise linear reconstruction is the same as constant");
        });
    }
    c.each([&] (auto& o) { o << "options that are refused"; }, [&]
    {
        CHECK(vf::throws([&] { make({}, {"block_size=4", "threaded=0"}, rough); }) && vf::throws([&] { make({}, {"block_size=4", "threaded=-1"}, rough); }), "no threads"); CHECK(vf::throws([&] { make({}, {"block_size=4", "reconstruct_method=weno"}, rough); }), "unknown reconstruction");
    });
}

// sums and multiples of solutions, as the time integration uses them
static void averages(ctx& c)
{
    for (int q : {0, 1}) for (auto& s : meshes(2, c.pick(3, 5)))
        c.each([&] (auto& o) { o << (q ? "angular" : "linear") << " momentum, mesh " << s.str(); }, [&]
        {
            count(c, s, vf::cat("a", q), 3);
            auto p = make(s, full({"block_size=2", vf::cat("conserve_linear_p=", 1 - q), "begin_live_binary=-1", "buffer_damping_rate=3"}), rough); double dt = step_of(p, 0.02);
            auto one = binary::advance(p.now, p.data, dt), two = binary::advance(one, p.data, dt);
            auto half = mara::make_rational(1, 2), third = mara::make_rational(1, 3);
            for (auto& [w, v, x] : {std::make_tuple(half, 0.5, 0.5), std::make_tuple(third, 1 / 3., 2 / 3.)})
            {
                auto r = one * w + two * (1 - w);
                auto mid = [&, v = v, x = x] (const vec& a, const vec& b) { vec z; for (size_t i = 0; i < a.size(); ++i) z.push_back(v * a[i] + x * b[i]); return z; };
                near(mid(flat(one, p.data), flat(two, p.data)), flat(r, p.data), 1e-13, "state"); near(mid(ledger(one), ledger(two)), ledger(r), 1e-13, "ledger");
                near(mid(elements(one.orbital_elements), elements(two.orbital_elements)), elements(r.orbital_elements), 1e-13, "orbit"); near(mid(elements(one.orbital_elements_acc), elements(two.orbital_elements_acc)), elements(r.orbital_elements_acc), 1e-13, "orbit (accretion)"); near(mid(elements(one.orbital_elements_grav), elements(two.orbital_elements_grav)), elements(r.orbital_elements_grav), 1e-13, "orbit (gravity)");
                near(mid({one.work_done_on[0].value, one.work_done_on[1].value, one.time.value}, {two.work_done_on[0].value, two.work_done_on[1].value, two.time.value}), {r.work_done_on[0].value, r.work_done_on[1].value, r.time.value}, 1e-13, "time or work");
                CHECK(r.iteration == one.iteration * w + two.iteration * (1 - w), "iteration");
            }
        });
}

// options that say when or where something begins
static void thresholds(ctx& c)
{
    // "time (in orbits) to begin evolution of the binary orbital elements"
    for (int q : {0, 1}) for (double begin : {0.0, 0.2, 1.0, 3.0}) for (double orbits : {0.01, 0.199, 0.201, 0.5, 0.9, 1.1, 2.9, 3.1, 20.0}) for (bool safe : {false, true})
        c.each([&] (auto& o) { o << (q ? "angular" : "linear") << " momentum, live from orbit " << begin << ", step at orbit " << orbits << (safe ? " in safe mode" : ""); }, [&]
        {
            shape<2> s; s.branches.insert({}); count(c, s, vf::cat("begin", q, begin, orbits), 1);
            auto p = make(s, full({"block_size=4", vf::cat("conserve_linear_p=", 1 - q), vf::cat("begin_live_binary=", begin), "mass_ratio=0.5", "eccentricity=0.2"}), island);
            p.now.time = 2 * M_PI * orbits; auto e0 = p.now.orbital_elements; double dt = step_of(p, 0.05);
            p.now = binary::advance(p.now, p.data, dt, safe); bool live = orbits > begin;
            auto want = live ? elements(e0 + (p.now.orbital_elements_acc) + (p.now.orbital_elements_grav) + mara::diff_cm(e0, dt)) : elements(e0);
            near(want, elements(p.now.orbital_elements), live ? 1e-12 : 0, live ? "orbit of a live binary" : "orbit of a binary that is not live");
            if (live) { auto a = elements(e0), b = elements(p.now.orbital_elements); double d = 0; for (size_t i = 0; i < a.size(); ++i) d = std::max(d, std::fabs(a[i] - b[i])); CHECK(d > 1e-9, "the orbit of a live binary stands still"); }
        });
    // "surface density below which 'fake' mass is added (relative to max sigma)"
    for (int q : {0, 1}) for (auto& s : meshes(2, 1)) for (double peak : {1.0, 0.01}) for (double radius : {1.0, 2.0}) for (double floor : {0.0, 0.3, 0.8, 1.0, 1.3, 2.0})
        c.each([&] (auto& o) { o << (q ? "angular" : "linear") << " momentum, mesh " << s.str() << ", greatest density " << peak << ", floor " << floor << ", disk radius " << radius; }, [&]
        {
            count(c, s, vf::cat("floor", q, peak, floor, radius), 1);
            strings base = {"block_size=4", vf::cat("conserve_linear_p=", 1 - q), vf::cat("disk_radius=", radius), vf::cat("disk_mass=", peak * 17.0618 * radius * radius), vf::cat("density_floor=", floor / peak)};
            auto p = make(s, full(base), rough), free = make(s, full(runs::add(base, {"density_floor=0"})), rough);
            auto was = flat(p.now, p.data); double dt = step_of(p, 0.05);
            auto a = flat(binary::advance(p.now, p.data, dt), p.data), b = flat(binary::advance(free.now, free.data, dt), p.data); finite(a);
            for (size_t i = 0; i < was.size(); i += 3)
            {
                if (std::fabs(was[i] - floor) <= 1e-3 * floor) continue;
                if (was[i] < floor) CHECK(a[i] > b[i] + 1e-6 * b[i], "no mass is added to a cell of density ", was[i], " below the floor ", floor);
                else for (int k = 0; k < 3; ++k) CHECK(std::fabs(a[i + k] - b[i + k]) <= 1e-12, "value ", k, " of a cell of density ", was[i], " above the floor ", floor, " changes by ", a[i + k] - b[i + k]);
            }
        });
}

// known finding: what leaves on one side does not all enter on the other
static void boundary(ctx& c)
{
    shape<2> s; s.branches.insert({});
    c.each([&] (auto& o) { o << "mass that crosses the outer boundary while the sound speed on the two sides differs"; }, [&]
    {
        count(c, s, "b", 1);
        auto p = make(s, full({"block_size=4", "axisymmetric_cs2=0", "mass_ratio=0.3", "sink_rate=0"}), rough); auto a = total(p.now, p.data);
        p.now = binary::advance(p.now, p.data, step_of(p, 0.1)); auto b = total(p.now, p.data);
        CHECK(std::fabs(a.m - b.m) <= 1e-13 * a.size, "mass ", a.m, " became ", b.m);
    });
}
int main(int argc, char** argv)
{
    if (sim::is_child(argc, argv)) return sim::child(argc, argv);
    return vf::main(argc, argv, {{"momentum", momentum}, {"sources", sources}, {"variables", variables}, {"turned", turned}, {"options", options}, {"averages", averages}, {"thresholds", thresholds}, {"boundary", boundary}});
}
