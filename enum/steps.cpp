// C21: what the simulation programs do from one checkpoint to the next.
#include "flows.hpp"
#include "app_config.hpp"
#include "app_schedule.hpp"
#include "subprog_binary.hpp"
#include "physics_iso2d.hpp"
using namespace flows;
using vf::ctx;

static double WORST = 0;
// largest deviation relative to the size of what was added up
static void close_to(const std::vector<five>& want, const std::vector<five>& got, const std::vector<five>& size, double tol)
{
    CHECK(want.size() == got.size(), "size");
    for (size_t i = 0; i < want.size(); ++i)
    {
        double all = size[i][0] + size[i][4] + std::fabs(size[i][1]);   // momentum and energy share the scale of the cell
        for (int k = 0; k < 5; ++k) { double s = k == 0 ? size[i][0] : all; WORST = std::max(WORST, std::fabs(want[i][k] - got[i][k]) / s); CHECK(std::fabs(want[i][k] - got[i][k]) <= tol * s, "component ", k, " of cell ", i, " is ", got[i][k], " instead of ", want[i][k]); }
    }
}
static std::string args_of(const strings& a) { std::string r; for (auto& x : a) r += " " + x; return r; }

// ------------------------------------------------------------------- sedov
template<typename Gas> static void follow(ctx& c, const std::map<std::string, sim::contents>& out, bool gave_up)
{
    int n = runs::count(out); CHECK(n >= 3, "only ", n, " checkpoints");
    auto now = read_blast(out.at(runs::chkpt(0)));
    for (int k = 1; k < n; ++k)
    {
        auto next = read_blast(out.at(runs::chkpt(k))); CHECK(next.r == now.r, "the grid changed"); CHECK(next.time > now.time, "time stands still");
        auto ref = now; five in{}, left{}; double m = 0, e = 0; std::vector<five> size, all(now.u.size(), five{});
        for (int t = 0; ref.time < next.time - 1e-9 && t < 4; ++t) { five a, b; ref = step<Gas>(ref, a, b, size); for (size_t i = 0; i < all.size(); ++i) for (int q = 0; q < 5; ++q) all[i][q] += size[i][q]; m += a[0] - b[0]; e += a[4] - b[4]; }
        CHECK(std::fabs(ref.time - next.time) < 1e-9, "the step to ", next.time, " is not the one the grid allows");
        close_to(ref.u, next.u, all, 1e-8);
        double dm = 0, de = 0, sm = 0, se = 0; for (size_t i = 0; i < all.size(); ++i) { dm += next.u[i][0] - now.u[i][0]; de += next.u[i][4] - now.u[i][4]; sm += all[i][0]; se += all[i][4]; CHECK(next.u[i][0] > 0, "density"); }
        CHECK(std::fabs(dm - m) <= 1e-12 * sm, "mass rose by ", dm, " but ", m, " passed the boundaries"); CHECK(std::fabs(de - e) <= 1e-12 * se, "energy rose by ", de, " but ", e, " passed the boundaries");
        ++c.transitions; c.state(vf::hash(out.at(runs::chkpt(k)).at("/solution/conserved").bytes));
        now = next;
    }
    if (gave_up) CHECK(vf::throws([&] { five a, b; std::vector<five> size; auto more = step<Gas>(now, a, b, size); states<Gas>(more); }), "gave up, though the step is possible");
}
static void sedov(ctx& c)
{
    for (int newtonian : {0, 1}) for (int nr : c.pick(std::vector<int>{4, 8, 16}, {4, 5, 8, 16, 32})) for (double R : {10., 100.}) for (double n : {0., 2.}) for (double p : {1., 0.01, 100.}) for (double d : {1., 0.05})
    {
        strings a = {vf::cat("newtonian=", newtonian), vf::cat("nr=", nr), vf::cat("outer_radius=", R), vf::cat("density_index=", n), vf::cat("explosion_pressure=", p), vf::cat("explosion_density=", d), "cpi=0", "tsi=1e9", "dfi=1e9", vf::cat("tfinal=", c.pick(0.4, 2.0))};
        if (newtonian && p / d > 1) a = runs::add(a, {vf::cat("tfinal=", c.pick(0.4, 2.0) / std::sqrt(p / d))});   // signals are that much faster
        c.each([&] (auto& o) { o << "sedov" << args_of(a); }, [&] { ++c.nontrivial; bool gave_up; auto out = output("sedov", a, "sedov", &gave_up); if (newtonian) follow<classical>(c, out, gave_up); else follow<relativistic>(c, out, gave_up); });
    }
}

// ------------------------------------------------------------------- cloud
static void cloud_steps(ctx& c)
{
    std::vector<strings> table;
    for (int rec : {1, 2}) for (int rk : {1, 2}) for (double floor : {1e-8, 1e-3}) for (int nr : {4, 6})
        table.push_back({vf::cat("reconstruct_method=", rec), vf::cat("rk_order=", rk), vf::cat("temperature_floor=", floor), vf::cat("nr=", nr)});
    for (auto& more : std::vector<strings>{{"plm_theta=2"}, {"plm_theta=1"}, {"cfl_number=0.2"}, {"cfl_number=0.1"}, {"jet_opening_angle=0.5"}, {"jet_duration=0.005"}, {"jet_gamma_beta=2"}, {"jet_structure_exp=1"}, {"jet_total_energy=1e48"}, {"density_index=1.5"}, {"cloud_mass=0.1"}, {"jet_delay_time=0.2"}, {"inner_radius=1e8"}, {"num_decades=2"}, {"density_index2=5"}, {"cloud_cutoff=1e10"}})
        for (int rk : {1, 2}) for (int rec : {1, 2}) table.push_back(runs::add({"nr=4", vf::cat("rk_order=", rk), vf::cat("reconstruct_method=", rec)}, more));
    for (auto a : table)
    {
        a = runs::add({"num_decades=1", "cpi=0", "tsi=1e9", "dfi=1e9", vf::cat("tfinal=", c.pick(2.0, 8.0))}, a);
        c.each([&] (auto& o) { o << "cloud" << args_of(a); }, [&]
        {
            ++c.nontrivial;
            bool gave_up; auto out = output("cloud", a, "cloud", &gave_up); int n = runs::count(out); CHECK(n >= 3, "only ", n, " checkpoints");
            auto now = read_cloud(out.at(runs::chkpt(0)));
            for (int k = 1; k < n; ++k)
            {
                auto next = read_cloud(out.at(runs::chkpt(k))); CHECK(next.r == now.r && next.q == now.q, "the grid changed"); CHECK(next.time > now.time, "time stands still");
                auto ref = now; std::vector<five> all(now.u.size(), five{}); double m = 0, e = 0;
                for (int t = 0; ref.time < next.time - 1e-9 && t < 4; ++t)
                {
                    five in, left; std::vector<five> size; auto was = ref;
                    auto note = [&] (double w) { for (size_t i = 0; i < all.size(); ++i) for (int q = 0; q < 5; ++q) all[i][q] += size[i][q]; m += w * (in[0] - left[0]); e += w * (in[4] - left[4]); };
                    ref = step(was, a, was.time, in, left, size);
                    if (option(a, "rk_order", 1) == 1) note(1);
                    else
                    {
                        note(0.5); ref = step(ref, a, was.time, in, left, size); note(0.5);
                        for (size_t i = 0; i < all.size(); ++i) for (int q = 0; q < 5; ++q) ref.u[i][q] = 0.5 * (was.u[i][q] + ref.u[i][q]);
                        ref.time = 0.5 * (was.time + ref.time);
                    }
                }
                CHECK(std::fabs(ref.time - next.time) < 1e-9, "the step to ", next.time, " is not the one that was asked for");
                close_to(ref.u, next.u, all, 1e-7);
                double dm = 0, de = 0, sm = 0, se = 0; for (size_t i = 0; i < all.size(); ++i) { dm += next.u[i][0] - now.u[i][0]; de += next.u[i][4] - now.u[i][4]; sm += all[i][0]; se += all[i][4]; }
                CHECK(std::fabs(dm - m) <= 1e-11 * sm, "mass rose by ", dm, " but ", m, " passed the boundaries"); CHECK(std::fabs(de - e) <= 1e-11 * se, "energy rose by ", de, " but ", e, " passed the boundaries");
                ++c.transitions; c.state(vf::hash(out.at(runs::chkpt(k)).at("/solution/conserved").bytes));
                now = next;
            }
            if (gave_up) CHECK(vf::throws([&] { five in, left; std::vector<five> size; double t = now.time; auto more = step(now, a, t, in, left, size); step(more, a, t, in, left, size); }), "gave up, though the step is possible");
        });
    }
}

// ------------------------------------------------------------------ binary
static mara::config_t config(const strings& args)
{
    std::vector<const char*> a = {"binary"}; for (auto& s : args) a.push_back(s.c_str());
    return binary::create_run_config(int(a.size()), a.data());
}
static vec flat(const binary::solution_t& s, const binary::solver_data_t& d)
{
    vec r;
    d.cell_centers.indexes().sink([&] (auto index)
    {
        auto n = d.block_size;
        for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j)
            if (d.conserve_linear_p) { auto u = s.conserved_u.at(index)(i, j); r.insert(r.end(), {mara::get<0>(u).value, mara::get<1>(u).value, mara::get<2>(u).value}); }
            else { auto u = s.conserved_q.at(index)(i, j); r.insert(r.end(), {mara::get<0>(u).value, mara::get<1>(u).value, mara::get<2>(u).value}); }
    });
    return r;
}
static void put(vec& r, const mara::full_orbital_elements_t& e) { r.insert(r.end(), {e.pomega, e.tau, e.cm_position_x, e.cm_position_y, e.cm_velocity_x, e.cm_velocity_y, e.elements.separation, e.elements.total_mass, e.elements.mass_ratio, e.elements.eccentricity}); }
static vec rest(const binary::solution_t& s)
{
    vec r = {s.mass_accreted_on[0].value, s.mass_accreted_on[1].value, s.mass_ejected.value, s.angular_momentum_accreted_on[0].value, s.angular_momentum_accreted_on[1].value, s.integrated_torque_on[0].value, s.integrated_torque_on[1].value, s.angular_momentum_ejected.value, s.work_done_on[0].value, s.work_done_on[1].value, s.time.value, s.iteration.as_double()};
    put(r, s.orbital_elements); put(r, s.orbital_elements_acc); put(r, s.orbital_elements_grav);
    return r;
}
static void near(const vec& want, const vec& got, double tol, const char* what)
{
    CHECK(want.size() == got.size(), what);
    double m = 0; for (double x : want) m = std::max(m, std::fabs(x));
    for (size_t i = 0; i < want.size(); ++i) CHECK(std::fabs(want[i] - got[i]) <= tol * (1e-3 + m), what, ": value ", i, " is ", got[i], " instead of ", want[i]);
}
// weighted sum of two solutions
static vec half(const vec& a, const vec& b) { vec r; for (size_t i = 0; i < a.size(); ++i) r.push_back(0.5 * a[i] + 0.5 * b[i]); return r; }
static void binary_steps(ctx& c)
{
    strings base = {"depth=1", "block_size=4", "domain_radius=6", "cpi=0", "tsi=0", "dfi=1e9", "threaded=1", "tfinal=0.3", "axisymmetric_cs2=1", "sink_radius=0.8", "softening_radius=0.3"};
    std::vector<strings> table;
    for (int q : {0, 1}) for (int rk : {1, 2}) for (int fixed : {0, 1}) for (int depth : {0, 1, 2})
        table.push_back({vf::cat("conserve_linear_p=", q), vf::cat("rk_order=", rk), vf::cat("fixed_dt=", fixed), vf::cat("depth=", depth), depth == 2 ? "block_size=2" : "block_size=4"});
    for (auto& more : std::vector<strings>{{"cfl_number=0.1"}, {"cfl_number=0.8"}, {"reconstruct_method=pcm"}, {"plm_theta=1.2"}, {"begin_live_binary=0"}, {"begin_live_binary=0", "no_accretion_force=1"}, {"mass_ratio=0.3", "eccentricity=0.4"}, {"separation=0"}, {"alpha=0", "nu=0.01"}, {"alpha=0.3", "alpha_cutoff_radius=2"}, {"buffer_damping_rate=0"}, {"counter_rotate=1"}, {"mdot=1e-4"}, {"threaded=3"}, {"mach_number=5"}, {"cfl_number=3", "sink_rate=20"}, {"cfl_number=5", "disk_mass=1"}, {"cfl_number=8", "mach_number=30"}, {"axisymmetric_cs2=0"}, {"density_floor=1e-3"}, {"source_term_softening=3"}, {"focus_factor=4", "depth=2", "block_size=2"}})
        for (int q : {0, 1}) for (int rk : {1, 2}) table.push_back(runs::add({vf::cat("conserve_linear_p=", q), vf::cat("rk_order=", rk)}, more));
    for (auto more : table)
    {
        auto a = runs::add(base, more);
        c.each([&] (auto& o) { o << "binary" << args_of(more); }, [&]
        {
            ++c.nontrivial;
            auto dir = sim::fresh("binary"); runs::setup setup{"binary", a, ""};
            auto run = sim::run("binary", runs::arguments(setup), dir);
            bool gave_up = run.code == 97 && ! run.signalled && ! run.hung; CHECK(run.ok() || gave_up, run.what);
            auto cfg = config(runs::arguments(setup)); binary::set_scheme_globals(cfg);
            auto data = binary::create_solver_data(cfg);
            auto read = [&] (int k) { auto f = h5::File(dir + "/out/" + runs::chkpt(k), "r"); return mara::read<binary::state_t>(f.open_group("/"), "/"); };
            int n = 0; while (sim::exists(dir + "/out/" + runs::chkpt(n))) ++n;
            CHECK(n >= (gave_up ? 1 : 2), "only ", n, " checkpoints");
            auto now = read(0).solution;
            double R = option(a, "domain_radius", 12), cfl = option(a, "cfl_number", 0.4); bool fixed = option(a, "fixed_dt", 0);
            double finest = 1e300, fastest = 1, m0 = 0, first = 0;
            auto mass = [&] (const binary::solution_t& s) { double m = 0; auto u = flat(s, data); size_t i = 0; data.cell_areas.indexes().sink([&] (auto index) { auto A = data.cell_areas.at(index); for (size_t k = 0; k < A.size(); ++k) { m += u[i] * A(0, 0).value; i += 3; } }); return m; };
            data.cell_centers.indexes().sink([&] (auto index) { finest = std::min(finest, 2 * R / (data.block_size << index.level)); });
            { auto p = binary::recover_primitive(now, data); p.indexes().sink([&] (auto index) { auto b = p.at(index); for (size_t i = 0; i < b.shape(0); ++i) for (size_t j = 0; j < b.shape(1); ++j) fastest = std::max(fastest, std::hypot(b(i, j).velocity_x(), b(i, j).velocity_y())); }); }
            m0 = mass(now);
            for (int k = 1; k < n + gave_up; ++k)
            {
                auto next = k < n ? read(k).solution : now; double dt = fixed ? cfl * finest / fastest : cfl * binary::maximum_timestep(now, data);
                vec u, x;
                auto tried = [&] (double dt, bool safe)
                {
                    auto one = binary::advance(now, data, dt, safe);
                    if (option(a, "rk_order", 2) == 1) { u = flat(one, data); x = rest(one); }
                    else { auto two = binary::advance(one, data, dt, safe); u = half(flat(now, data), flat(two, data)); x = half(rest(now), rest(two)); }
                };
                bool safe = false;
                try { tried(dt, false); } catch (const std::exception&)
                {
                    safe = true; c.state(777); bool fails = vf::throws([&] { tried(0.1 * dt, true); });
                    CHECK(fails == (k == n), fails ? "went on where every step fails" : "gave up, though a smaller step is possible");
                    if (fails) { ++c.transitions; break; }
                }
                CHECK(k < n, "gave up, though the step is possible: ", run.what);
                CHECK(std::fabs(next.time.value - now.time.value - (safe ? 0.1 : 1) * dt) <= 1e-12 * (1 + next.time.value), "the step to ", next.time.value, " is not the one that was asked for");
                near(u, flat(next, data), 1e-11, "state"); near(x, rest(next), 1e-11, "ledger");
                if (option(a, "density_floor", 0) == 0 && option(a, "axisymmetric_cs2", 0) == 1) { auto L = rest(next); double gone = L[0] + L[1] + L[2], m = mass(next); CHECK(std::fabs(m0 - m - gone) <= 1e-12 * (m0 + std::fabs(gone)), "mass fell by ", m0 - m, " but ", gone, " is booked at checkpoint ", k); }
                ++c.transitions; c.state(vf::hash(std::string((const char*) u.data(), u.size() * 8)));
                now = next;
            }
            sim::wipe(dir);
        });
    }
}
int main(int argc, char** argv)
{
    if (sim::is_child(argc, argv)) return sim::child(argc, argv);
    int r = vf::main(argc, argv, {{"sedov", sedov}, {"cloud", cloud_steps}, {"binary", binary_steps}});
    if (getenv("VF_WORST")) fprintf(stderr, "worst %g\n", WORST);
    return r;
}
