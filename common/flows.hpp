// Reference for the spherical flows (sedov, cloud): grids, fluxes and one step,
// cell by cell, from what the programs write.
#pragma once
#include "runs.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "core_geometric.hpp"
#include "core_rational.hpp"
#include "physics_srhd.hpp"
#include "physics_euler.hpp"
#include "model_atmosphere.hpp"
#include "model_jet_nozzle.hpp"

namespace flows
{
typedef std::vector<double> vec;
typedef std::array<double, 5> five;
using sim::strings;

inline vec doubles(const sim::contents& c, const std::string& path)
{
    auto i = c.find(path); CHECK(i != c.end(), path, " is missing");
    CHECK(i->second.bytes.size() % 8 == 0 && i->second.type.compare(0, 5, "float") == 0, path, " is not made of doubles but ", i->second.type);
    vec r(i->second.bytes.size() / 8); memcpy(r.data(), i->second.bytes.data(), i->second.bytes.size());
    return r;
}
inline double number(const sim::contents& c, const std::string& path) { auto v = doubles(c, path); CHECK(v.size() == 1, path, " is not one number"); return v[0]; }
inline std::vector<five> fives(const sim::contents& c, const std::string& path) { auto v = doubles(c, path); CHECK(v.size() % 5 == 0, path); std::vector<five> r(v.size() / 5); memcpy(r.data(), v.data(), v.size() * 8); return r; }
inline double option(const strings& args, const std::string& name, double otherwise) { for (auto& a : args) if (a.compare(0, name.size() + 1, name + "=") == 0) return atof(a.c_str() + name.size() + 1); return otherwise; }

const double G = 4. / 3;   // adiabatic index

// the two gases behind one face; states are (density, three velocities, pressure)
template<typename System> struct gas
{
    static auto prim(const five& p) { typename System::primitive_t q; for (int k = 0; k < 5; ++k) q[k] = p[k]; return q; }
    static five recover(const five& u, double floor) { typename System::conserved_density_t d; for (int k = 0; k < 5; ++k) d[k].value = u[k]; auto q = System::recover_primitive(d, G, floor); five r; for (int k = 0; k < 5; ++k) r[k] = q[k]; return r; }
    static five conserved(const five& p) { auto d = prim(p).to_conserved_density(G); five r; for (int k = 0; k < 5; ++k) r[k] = d[k].value; return r; }
    static five flux(const five& l, const five& r, int axis) { auto f = System::riemann_hlle(prim(l), prim(r), mara::unit_vector_t::on_axis(axis), G); five z; for (int k = 0; k < 5; ++k) z[k] = f[k].value; return z; }
    static constexpr bool newtonian = std::is_same<System, mara::euler>::value;
    static double inertia(const five& p) { return newtonian ? p[0] : p[0] + p[4] * G / (G - 1); }
    static double speed(const five& p) { return newtonian ? std::fabs(p[1]) + std::sqrt(G * p[4] / p[0]) : 0; }
    static double entropy(const five& p) { return std::log(p[4] / std::pow(p[0], G)); }
    // what curved coordinates do to the momentum
    static five geometric(const five& p, double r, double cot)
    {
        double H = inertia(p); five s{};
        s[1] = (2 * p[4] + H * (p[2] * p[2] + p[3] * p[3])) / r;
        s[2] = (cot * p[4] + H * (p[3] * p[3] * cot - p[1] * p[2])) / r;
        s[3] = -H * p[3] * (p[1] + p[2] * cot) / r;
        return s;
    }
};
typedef gas<mara::srhd> relativistic;
typedef gas<mara::euler> classical;

inline double volume(double r0, double r1) { return (r1 * r1 * r1 - r0 * r0 * r0) / 3; }

// ------------------------------------------------------------------- sedov
struct blast { double time = 0; vec r; std::vector<five> u; };
inline blast read_blast(const sim::contents& c) { blast b; b.time = number(c, "/solution/time"); b.r = doubles(c, "/solution/vertices"); b.u = fives(c, "/solution/conserved"); CHECK(b.r.size() == b.u.size() + 1, "as many faces as cells"); return b; }
template<typename Gas> std::vector<five> states(const blast& b) { std::vector<five> p; for (size_t i = 0; i < b.u.size(); ++i) { five d = b.u[i]; for (auto& x : d) x /= volume(b.r[i], b.r[i + 1]); p.push_back(Gas::recover(d, 0)); } return p; }
// flow: what passes the two outer faces in the step; size: scale for comparisons
template<typename Gas> blast step(const blast& b, five& entered, five& left, std::vector<five>& size)
{
    auto p = states<Gas>(b); size_t n = p.size(); double c = 1; for (auto& x : p) c = std::max(c, Gas::speed(x)); double dt = 0.4 * (b.r[1] - b.r[0]) / c;
    auto mirror = p[0]; mirror[1] = -mirror[1];
    std::vector<five> F(n + 1);
    for (size_t i = 0; i <= n; ++i) { F[i] = Gas::flux(i == 0 ? mirror : p[i - 1], i == n ? p[n - 1] : p[i], 0); for (auto& f : F[i]) f *= b.r[i] * b.r[i] * dt; }
    blast z = b; z.time += dt; size.assign(n, {});
    for (size_t i = 0; i < n; ++i)
    {
        auto s = Gas::geometric(p[i], 0.5 * (b.r[i] + b.r[i + 1]), 0);
        for (int k = 0; k < 5; ++k) { double w = s[k] * volume(b.r[i], b.r[i + 1]) * dt; z.u[i][k] += F[i][k] - F[i + 1][k] + w; size[i][k] = std::fabs(b.u[i][k]) + std::fabs(F[i][k]) + std::fabs(F[i + 1][k]) + std::fabs(w); }
    }
    entered = F[0]; left = F[n];
    return z;
}

// ------------------------------------------------------------------- cloud
struct cloud { double time = 0; vec r, q; std::vector<five> u; size_t nr() const { return r.size() - 1; } size_t nq() const { return q.size() - 1; } };
inline cloud read_cloud(const sim::contents& c) { cloud b; b.time = number(c, "/solution/time"); b.r = doubles(c, "/solution/radial_vertices"); b.q = doubles(c, "/solution/polar_vertices"); b.u = fives(c, "/solution/conserved"); CHECK(b.u.size() == b.nr() * b.nq(), "shape of the grid"); return b; }
inline double volume(const cloud& b, size_t i, size_t j) { return 2 * M_PI * volume(b.r[i], b.r[i + 1]) * (std::cos(b.q[j]) - std::cos(b.q[j + 1])); }
inline double radial_area(const cloud& b, size_t i, size_t j) { return 2 * M_PI * b.r[i] * b.r[i] * (std::cos(b.q[j]) - std::cos(b.q[j + 1])); }
inline double polar_area(const cloud& b, size_t i, size_t j) { return M_PI * (b.r[i + 1] * b.r[i + 1] - b.r[i] * b.r[i]) * std::sin(b.q[j]); }
inline std::vector<five> states(const cloud& b, double floor) { std::vector<five> p; for (size_t i = 0; i < b.nr(); ++i) for (size_t j = 0; j < b.nq(); ++j) { five d = b.u[i * b.nq() + j]; for (auto& x : d) x /= volume(b, i, j); p.push_back(relativistic::recover(d, floor)); } return p; }

struct units { double length, mass, time; };
inline units units_of(const strings& a)
{
    double r0 = option(a, "inner_radius", 3e8);
    return {r0, option(a, "cloud_mass", 2e-2) * 1.989e33, r0 / 2.998e10};
}
inline five nozzle(const strings& a, double q, double time)
{
    auto jet = mara::jet_nozzle_model().with_inner_radius(option(a, "inner_radius", 3e8)).with_total_energy(option(a, "jet_total_energy", 1e50)).with_jet_duration(option(a, "jet_duration", 1.0))
        .with_structure_exponent(option(a, "jet_structure_exp", 2.0)).with_opening_angle(option(a, "jet_opening_angle", 0.1)).with_lorentz_factor(option(a, "jet_gamma_beta", 10.0));
    auto u = units_of(a); five p{};   // cold
    p[0] = jet.density_at_base() / (u.mass / (u.length * u.length * u.length));
    p[1] = jet.gamma_beta(q, time * u.time) + jet.gamma_beta(M_PI - q, time * u.time);
    return p;
}
inline double slope(double a, double b, double c, double theta)
{
    double x = theta * (b - a), y = 0.5 * (c - a), z = theta * (c - b);
    if ((x > 0 && y > 0 && z > 0)) return std::min({x, y, z});
    if ((x < 0 && y < 0 && z < 0)) return std::max({x, y, z});
    return 0;
}
// fluxes through the faces between the cells of a line of states
inline std::vector<five> line(const std::vector<five>& p, int axis, int method, double theta)
{
    std::vector<five> g(p.size(), five{}), f;
    if (method == 2) for (size_t i = 1; i + 1 < p.size(); ++i) for (int k = 0; k < 5; ++k) g[i][k] = slope(p[i - 1][k], p[i][k], p[i + 1][k], theta);
    for (size_t i = 0; i + 1 < p.size(); ++i) { five l = p[i], r = p[i + 1]; for (int k = 0; k < 5; ++k) { l[k] += 0.5 * g[i][k]; r[k] -= 0.5 * g[i + 1][k]; } f.push_back(relativistic::flux(l, r, axis)); }
    return f;
}
inline cloud step(const cloud& b, const strings& args, double nozzle_time, five& entered, five& left, std::vector<five>& size)
{
    auto p = states(b, option(args, "temperature_floor", 1e-8)); size_t n = b.nr(), m = b.nq();
    int method = int(option(args, "reconstruct_method", 2)); double theta = option(args, "plm_theta", 1.2), dt = option(args, "cfl_number", 0.4) * (b.r[1] - b.r[0]);
    cloud z = b; z.time += dt; size.assign(n * m, {}); entered = left = five{};
    auto add = [&] (size_t i, size_t j, const five& f, double w) { for (int k = 0; k < 5; ++k) { z.u[i * m + j][k] += f[k] * w; size[i * m + j][k] += std::fabs(f[k] * w); } };
    for (size_t i = 0; i < n * m; ++i) for (int k = 0; k < 5; ++k) size[i][k] = std::fabs(b.u[i][k]);
    for (size_t j = 0; j < m; ++j)
    {
        std::vector<five> l = {nozzle(args, 0.5 * (b.q[j] + b.q[j + 1]), nozzle_time)};
        for (size_t i = 0; i < n; ++i) l.push_back(p[i * m + j]);
        l.push_back(l.back());
        auto f = line(l, 0, method, theta);
        for (size_t i = 0; i <= n; ++i) { double w = radial_area(b, i, j) * dt; if (i < n) add(i, j, f[i], w); if (i > 0) add(i - 1, j, f[i], -w); if (i == 0) for (int k = 0; k < 5; ++k) entered[k] += f[i][k] * w; if (i == n) for (int k = 0; k < 5; ++k) left[k] += f[i][k] * w; }
    }
    for (size_t i = 0; i < n; ++i)
    {
        std::vector<five> l; for (size_t j = 0; j < m; ++j) l.push_back(p[i * m + j]);
        auto f = line(l, 1, method, theta);
        for (size_t j = 1; j < m; ++j) { double w = polar_area(b, i, j) * dt; add(i, j, f[j - 1], w); add(i, j - 1, f[j - 1], -w); }
        for (size_t j = 0; j < m; ++j) { double q = 0.5 * (b.q[j] + b.q[j + 1]); add(i, j, relativistic::geometric(p[i * m + j], 0.5 * (b.r[i] + b.r[i + 1]), std::cos(q) / std::sin(q)), volume(b, i, j) * dt); }
    }
    return z;
}

// runs a program and returns what it wrote
inline std::map<std::string, sim::contents> output(const std::string& program, const strings& args, const std::string& where, bool* gave_up=nullptr)
{
    auto dir = sim::fresh(where); runs::setup s{program, args, ""};
    auto r = sim::run(program, runs::arguments(s), dir); if (gave_up) *gave_up = r.code == 97 && ! r.signalled && ! r.hung;
    CHECK(r.ok() || (gave_up && *gave_up), r.what);
    auto o = runs::outputs(dir + runs::outdir(s)); sim::wipe(dir);
    return o;
}
}
