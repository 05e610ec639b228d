// C17: numerical fluxes are consistent, symmetric and upwind.
#include "vf.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "core_geometric.hpp"
#include "core_rational.hpp"
#include "physics_iso2d.hpp"
#include "physics_euler.hpp"
#include "physics_srhd.hpp"
using vf::ctx;
typedef long double ld;
typedef std::vector<double> vec;
typedef std::array<double, 3> v3;

static bool near(ld a, ld b, ld abs) { return std::isfinite(double(a)) && fabsl(a - b) <= abs; }

// A gas: its states as (density, v1, v2, v3, pressure-like), fluxes as plain numbers
struct state { double d; v3 v; double p; };
typedef std::vector<double> flux;

struct isothermal
{
    static constexpr bool flat = true;
    static constexpr int n = 3;
    using P = mara::iso2d::primitive_t;
    static P make(const state& s) { return P().with_sigma(s.d).with_velocity_x(s.v[0]).with_velocity_y(s.v[1]); }
    static double c2(const state& s) { return s.p / s.d; }
    static flux of(const mara::iso2d::flux_t& f) { return {mara::get<0>(f).value, mara::get<1>(f).value, mara::get<2>(f).value}; }
    static flux of(const mara::iso2d::conserved_per_area_t& f) { return {mara::get<0>(f).value, mara::get<1>(f).value, mara::get<2>(f).value}; }
    static flux physical(const state& s, mara::unit_vector_t n, double) { return of(make(s).flux(n, c2(s))); }
    static flux conserved(const state& s, double) { return of(make(s).to_conserved_per_area()); }
    static std::pair<double, double> speeds(const state& s, mara::unit_vector_t n, double) { auto w = make(s).wavespeeds(n, c2(s)); return {w.m.value, w.p.value}; }
    static flux hlle(const state& l, const state& r, mara::unit_vector_t n, double) { return of(mara::iso2d::riemann_hlle(make(l), make(r), c2(l), c2(r), n)); }
    static flux expect(const state& s, v3 n, double) { ld vn = ld(s.v[0]) * n[0] + ld(s.v[1]) * n[1]; return {double(s.d * vn), double(s.d * vn * s.v[0] + s.p * n[0]), double(s.d * vn * s.v[1] + s.p * n[1])}; }
    static void true_speeds(const state& s, v3 n, double, double m, double p) { ld vn = ld(s.v[0]) * n[0] + ld(s.v[1]) * n[1], c = sqrtl(ld(s.p) / s.d); double t = 1e-13 * double(fabsl(vn) + c + std::hypot(s.v[0], s.v[1])); CHECK(near(m, vn - c, t) && near(p, vn + c, t), "wave speeds ", m, " ", p); }
};
struct adiabatic
{
    static constexpr bool flat = false;
    static constexpr int n = 5;
    using P = mara::euler::primitive_t;
    static P make(const state& s) { return P().with_mass_density(s.d).with_velocity_1(s.v[0]).with_velocity_2(s.v[1]).with_velocity_3(s.v[2]).with_gas_pressure(s.p); }
    template<typename F> static flux of(const F& f) { flux r; for (int i = 0; i < 5; ++i) r.push_back(f[i].value); return r; }
    static flux physical(const state& s, mara::unit_vector_t n, double g) { auto a = of(make(s).flux(n, g)), b = of(make(s).flux(n, make(s).to_conserved_density(g))); for (int i = 0; i < 5; ++i) CHECK(vf::close(a[i], b[i], 1e-12, 0), "flux from given conserved variables"); return a; }
    static flux conserved(const state& s, double g) { return of(make(s).to_conserved_density(g)); }
    static std::pair<double, double> speeds(const state& s, mara::unit_vector_t n, double g) { auto w = make(s).wavespeeds(n, g); return {w.m.value, w.p.value}; }
    static flux hlle(const state& l, const state& r, mara::unit_vector_t n, double g) { return of(mara::euler::riemann_hlle(make(l), make(r), n, g)); }
    static flux expect(const state& s, v3 n, double g)
    {
        ld vn = 0, v2 = 0; for (int i = 0; i < 3; ++i) { vn += ld(s.v[i]) * n[i]; v2 += ld(s.v[i]) * s.v[i]; }
        ld E = 0.5L * s.d * v2 + ld(s.p) / (ld(g) - 1);
        flux f{double(s.d * vn)}; for (int i = 0; i < 3; ++i) f.push_back(double(s.d * vn * s.v[i] + s.p * ld(n[i]))); f.push_back(double((E + s.p) * vn)); return f;
    }
    static void true_speeds(const state& s, v3 n, double g, double m, double p) { ld vn = 0; for (int i = 0; i < 3; ++i) vn += ld(s.v[i]) * n[i]; ld c = sqrtl(ld(g) * s.p / s.d); double t = 1e-12 * double(fabsl(vn) + c + std::hypot(s.v[0], s.v[1], s.v[2])); CHECK(near(m, vn - c, t) && near(p, vn + c, t), "wave speeds ", m, " ", p); }
};
struct relativistic
{
    static constexpr bool flat = false;
    static constexpr int n = 5;
    using P = mara::srhd::primitive_t;
    static P make(const state& s) { return P().with_mass_density(s.d).with_gamma_beta_1(s.v[0]).with_gamma_beta_2(s.v[1]).with_gamma_beta_3(s.v[2]).with_gas_pressure(s.p); }
    template<typename F> static flux of(const F& f) { flux r; for (int i = 0; i < 5; ++i) r.push_back(f[i].value); return r; }
    static flux physical(const state& s, mara::unit_vector_t n, double g) { auto a = of(make(s).flux(n, g)), b = of(make(s).flux(n, make(s).to_conserved_density(g))); for (int i = 0; i < 5; ++i) CHECK(vf::close(a[i], b[i], 1e-12, 0), "flux from given conserved variables"); return a; }
    static flux conserved(const state& s, double g) { return of(make(s).to_conserved_density(g)); }
    static std::pair<double, double> speeds(const state& s, mara::unit_vector_t n, double g) { auto w = make(s).wavespeeds(n, g); return {w.m.value, w.p.value}; }
    static flux hlle(const state& l, const state& r, mara::unit_vector_t n, double g) { return of(mara::srhd::riemann_hlle(make(l), make(r), n, g)); }
    static flux expect(const state& s, v3 n, double g)
    {
        ld un = 0, u2 = 0; for (int i = 0; i < 3; ++i) { un += ld(s.v[i]) * n[i]; u2 += ld(s.v[i]) * s.v[i]; }
        ld W = sqrtl(1 + u2), H = s.d + ld(s.p) * g / (ld(g) - 1), D = s.d * W;
        flux f{double(s.d * un)}; for (int i = 0; i < 3; ++i) f.push_back(double(H * un * s.v[i] + s.p * ld(n[i]))); f.push_back(double(H * W * un - D * un / W)); return f;
    }
    // a sound wave of speed a satisfies W^2 (vn - a)^2 (1 - c^2) = c^2 (1 - a^2)
    static void true_speeds(const state& s, v3 n, double g, double m, double p)
    {
        ld un = 0, u2 = 0; for (int i = 0; i < 3; ++i) { un += ld(s.v[i]) * n[i]; u2 += ld(s.v[i]) * s.v[i]; }
        ld W2 = 1 + u2, vn = un / sqrtl(W2), c2 = ld(g) * s.p / (s.d + ld(s.p) * g / (ld(g) - 1));
        CHECK(m > -1 && p < 1 && m < p, "wave speeds ", m, " ", p, " not below the speed of light");
        CHECK(m <= vn + 1e-12 && p >= vn - 1e-12, "wave speeds ", m, " ", p, " do not enclose the flow speed");
        for (ld a : {ld(m), ld(p)})
        {
            ld x = W2 * (vn - a) * (vn - a) * (1 - c2), y = c2 * (1 - a * a);
            // rounding: a is off by a few units in the last place of 1, amplified by the Lorentz factor
            ld t = 1e-9L * (x + y) + 1e-13L * W2 * (2 * fabsl(vn - a) * (1 - c2) + c2);
            CHECK(near(x, y, t), "wave speed ", double(a), " is not characteristic");
        }
    }
};

static const std::vector<v3> dirs3 = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0.6, -0.8, 0}, {0.48, 0.6, 0.64}};
static const std::vector<v3> dirs2 = {{1, 0, 0}, {0, 1, 0}, {-1, 0, 0}, {0.6, -0.8, 0}, {0.28, 0.96, 0}};
static mara::unit_vector_t unit(v3 n) { return mara::unit_vector_t(n[0], n[1], n[2]); }
static std::string str(const state& s) { return vf::cat("(", s.d, "; ", s.v[0], ",", s.v[1], ",", s.v[2], "; ", s.p, ")"); }
static std::string str(const flux& f) { std::string r; for (auto x : f) r += vf::cat(r.empty() ? "" : ",", x); return r; }
static double scale(const flux& f) { double s = 0; for (double x : f) s = std::max(s, std::fabs(x)); return s; }

template<typename G> static std::vector<state> states(ctx& c)
{
    bool rel = std::is_same<G, relativistic>::value;
    std::vector<state> r;
    auto D = c.thorough() ? vec{1e-6, 0.2, 1, 50} : vec{0.01, 1, 50};
    auto T = c.thorough() ? vec{1e-4, 0.1, 1, 20} : vec{1e-3, 0.5, 20};
    std::vector<v3> V = rel ? std::vector<v3>{{0, 0, 0}, {0.2, 0, 0}, {-0.2, 0.1, 0}, {5, 0, -1}, {-5, 2, 1}, {0, 3, 0.5}, {0.01, -7, 0}} : std::vector<v3>{{0, 0, 0}, {0.2, 0, 0}, {-0.2, 0.7, 0}, {6, 0, -1}, {-6, 2, 1}, {0, 3, 0.5}, {0.5, -8, 0}};
    if (c.thorough()) { V.push_back({0.9, 0.9, 0.9}); V.push_back({-40, 3, 0}); V.push_back({1e-7, 0, 1e-7}); }
    for (double d : D) for (double t : T) for (auto v : V) { if (G::flat) v[2] = 0; r.push_back({d, v, d * t}); }
    return r;
}
static void same(const flux& a, const flux& b, double tol, const char* what) { for (size_t i = 0; i < a.size(); ++i) CHECK(near(a[i], b[i], tol), what, ": component ", i, " (", str(a), ") and (", str(b), ")"); }

template<typename G> static void single(ctx& c)
{
    for (double g : G::flat ? vec{1.0} : vec{4./3, 1.4, 5./3}) for (auto& s : states<G>(c)) for (auto& n : G::flat ? dirs2 : dirs3)
        c.each([&] (auto& o) { o << "state " << str(s) << " gamma=" << g << " along (" << n[0] << "," << n[1] << "," << n[2] << ")"; }, [&]
        {
            c.state(vf::hash(str(s))); c.interesting(); c.step(3);
            auto e = G::expect(s, n, g), f = G::physical(s, unit(n), g);
            // each component on its own scale: mass, momentum, energy
            auto U = G::conserved(s, g);
            auto w = G::speeds(s, unit(n), g);
            double a = std::max({std::fabs(w.first), std::fabs(w.second), 1e-30});
            for (int i = 0; i < G::n; ++i) { double sc = (i >= 1 && i <= 3) ? a * a * (std::fabs(U[0]) + std::fabs(U[G::n - 1])) + s.p + std::fabs(e[i]) + a * std::fabs(U[i]) : a * std::fabs(U[i]) + (i == 4 ? a * s.p + a * U[0] : 0); CHECK(near(f[i], e[i], 1e-12 * sc), "physical flux (", str(f), ") instead of (", str(e), ")"); }
            G::true_speeds(s, n, g, w.first, w.second);
            same(G::hlle(s, s, unit(n), g), f, 1e-12 * scale(f) + 1e-13 * a * scale(U), "equal states do not give the physical flux");
        });
}

template<typename G> static state mirrored(state s, v3 n) { double k = 0; for (int i = 0; i < 3; ++i) k += s.v[i] * n[i]; for (int i = 0; i < 3; ++i) s.v[i] -= 2 * k * n[i]; return s; }
static flux mirror_flux(flux f, v3 n) { double k = 0; int m = std::min<int>(3, f.size() - 1); if (f.size() == 5) m = 3; for (int i = 0; i < m; ++i) k += f[1 + i] * n[i]; for (int i = 0; i < m; ++i) f[1 + i] -= 2 * k * n[i]; return f; }
static flux negated(flux f) { for (auto& x : f) x = -x; return f; }
static state cycled(state s, bool flat) { if (flat) std::swap(s.v[0], s.v[1]); else s.v = {s.v[2], s.v[0], s.v[1]}; return s; }
static v3 cycled(v3 n, bool flat) { if (flat) return {n[1], n[0], n[2]}; return {n[2], n[0], n[1]}; }
static flux cycled_flux(flux f) { if (f.size() == 3) std::swap(f[1], f[2]); else { auto t = f; f[1] = t[3]; f[2] = t[1]; f[3] = t[2]; } return f; }

template<typename G> static void pairs(ctx& c)
{
    auto S = states<G>(c);
    for (double g : G::flat ? vec{1.0} : vec{4./3, 5./3}) for (auto& l : S) for (auto& r : S)
        c.each([&] (auto& o) { o << "left " << str(l) << " right " << str(r) << " gamma=" << g; }, [&]
        {
            c.state(vf::mix(vf::hash(str(l)), vf::hash(str(r)))); c.interesting(&l != &r);
            for (auto& n : G::flat ? dirs2 : dirs3)
            {
                c.step();
                auto F = G::hlle(l, r, unit(n), g);
                auto Ul = G::conserved(l, g), Ur = G::conserved(r, g), Fl = G::physical(l, unit(n), g), Fr = G::physical(r, unit(n), g);
                auto wl = G::speeds(l, unit(n), g), wr = G::speeds(r, unit(n), g);
                double am = std::min(wl.first, wr.first), ap = std::max(wl.second, wr.second);
                double sc = scale(Fl) + scale(Fr) + std::max(std::fabs(am), std::fabs(ap)) * (scale(Ul) + scale(Ur)), tol = 1e-12 * sc;
                if (am >= 0) same(F, Fl, tol, "all waves go right, but the flux is not that of the left state");
                if (ap <= 0) same(F, Fr, tol, "all waves go left, but the flux is not that of the right state");
                if (am < 0 && ap > 0)
                {
                    flux e; for (int i = 0; i < G::n; ++i) e.push_back(double((ld(ap) * Fl[i] - ld(am) * Fr[i] + ld(ap) * am * (ld(Ur[i]) - Ul[i])) / (ld(ap) - am)));
                    same(F, e, tol, "not the flux of the two-wave fan");
                }
                same(G::hlle(mirrored<G>(r, n), mirrored<G>(l, n), unit(n), g), negated(mirror_flux(F, n)), tol, "mirroring the states");
                same(G::hlle(r, l, unit({-n[0], -n[1], -n[2]}), g), negated(F), tol, "seen from the other side");
                same(G::hlle(cycled(l, G::flat), cycled(r, G::flat), unit(cycled(n, G::flat)), g), cycled_flux(F), tol, "renaming the axes");
            }
        });
}

// the isothermal solver that resolves contacts
static void hllc(ctx& c)
{
    using I = isothermal; using M = mara::iso2d;
    auto S = states<I>(c);
    auto C = c.thorough() ? vec{0.01, 0.3, 1, 9} : vec{0.01, 1, 9};
    for (auto& l : S) for (auto& r : S)
        c.each([&] (auto& o) { o << "hllc left " << str(l) << " right " << str(r); }, [&]
        {
            c.state(vf::mix(vf::hash(str(l)), vf::hash(str(r)))); c.interesting(&l != &r);
            for (auto& n : dirs2)
            {
                c.step();
                auto at = [&] (const state& a, const state& b, v3 m) { return M::compute_hllc_variables(I::make(a), I::make(b), I::c2(a), I::c2(b), unit(m)); };
                auto H = at(l, r, n);
                auto F = I::of(M::riemann_hllc(I::make(l), I::make(r), I::c2(l), I::c2(r), unit(n)));
                auto Ul = I::conserved(l, 0), Ur = I::conserved(r, 0), Fl = I::physical(l, unit(n), 0), Fr = I::physical(r, unit(n), 0);
                double sl = H.sl, sr = H.sr, ss = H.contact_speed();
                auto wl = I::speeds(l, unit(n), 0), wr = I::speeds(r, unit(n), 0);
                double big = std::max(std::fabs(sl), std::fabs(sr)), sc = scale(Fl) + scale(Fr) + big * (scale(Ul) + scale(Ur)), tol = 1e-11 * sc, st = 1e-12 * (big + 1e-30);
                CHECK(std::isfinite(sl) && std::isfinite(sr) && std::isfinite(ss), "wave speeds ", sl, " ", ss, " ", sr);
                CHECK(sl <= wl.first + st && sr >= wr.second - st, "outer waves ", sl, " ", sr, " slower than sound");
                same(I::of(H.interface_flux()), F, tol, "interface_flux and riemann_hllc");
                same(I::of(H.Ul()), Ul, 1e-13 * scale(Ul), "Ul"); same(I::of(H.Ur()), Ur, 1e-13 * scale(Ur), "Ur"); same(I::of(H.Fl()), Fl, tol, "Fl"); same(I::of(H.Fr()), Fr, tol, "Fr");
                if (sl >= 0) { same(F, Fl, tol, "all waves go right, but the flux is not that of the left state"); same(I::of(H.interface_conserved_state()), Ul, 1e-12 * scale(Ul), "interface state"); }
                else if (sr <= 0) { same(F, Fr, tol, "all waves go left, but the flux is not that of the right state"); same(I::of(H.interface_conserved_state()), Ur, 1e-12 * scale(Ur), "interface state"); }
                // jump conditions across the three waves
                if (sl < ss - st && ss < sr - st)
                {
                    auto Vl = I::of(H.Ul_star()), Vr = I::of(H.Ur_star());
                    flux Gl, Gr; for (int i = 0; i < 3; ++i) { Gl.push_back(Fl[i] + sl * (Vl[i] - Ul[i])); Gr.push_back(Fr[i] + sr * (Vr[i] - Ur[i])); }
                    double amp = std::max({std::fabs(sl - ss), std::fabs(sr - ss)}) / std::min(std::fabs(sl - ss), std::fabs(sr - ss)), big2 = (scale(Vl) + scale(Vr)) * big;
                    for (int i = 0; i < 3; ++i) CHECK(near(ld(Gl[i]) - Gr[i], ld(ss) * (ld(Vl[i]) - Vr[i]), tol * amp + 1e-11 * big2), "jump across the contact, component ", i, ": fluxes (", str(Gl), ") (", str(Gr), ") states (", str(Vl), ") (", str(Vr), ") speed ", ss);
                    // star states: no gas crosses the contact, tangential velocity is that of its own side, density positive
                    for (auto* s : {&l, &r})
                    {
                        auto& V = s == &l ? Vl : Vr;
                        CHECK(V[0] > 0, "density between the waves ", V[0]);
                        double vt = -s->v[0] * n[1] + s->v[1] * n[0], mt = -V[1] * n[1] + V[2] * n[0], mn = V[1] * n[0] + V[2] * n[1];
                        double t = 1e-11 * V[0] * (big + std::fabs(s->v[0]) + std::fabs(s->v[1]));
                        CHECK(near(mn, ld(V[0]) * ss, t) && near(mt, ld(V[0]) * vt, t), "velocity between the waves");
                    }
                    if (sl < 0 && sr > 0) { same(F, ss >= 0 ? Gl : Gr, tol * amp + 1e-11 * big2, "flux between the waves"); auto& V = ss >= 0 ? Vl : Vr; if (std::fabs(ss) > st) same(I::of(H.interface_conserved_state()), V, 1e-11 * scale(V), "interface state"); }
                }
                auto Q = I::of(M::riemann_hllc(I::make(r), I::make(l), I::c2(r), I::c2(l), unit({-n[0], -n[1], -n[2]})));
                same(Q, negated(F), 1e3 * tol, "seen from the other side");
                auto mr = mirrored<I>(r, n), ml = mirrored<I>(l, n);
                same(I::of(M::riemann_hllc(I::make(mr), I::make(ml), I::c2(r), I::c2(l), unit(n))), negated(mirror_flux(F, n)), 1e3 * tol, "mirroring the states");
                auto cl = cycled(l, true), cr = cycled(r, true);
                same(I::of(M::riemann_hllc(I::make(cl), I::make(cr), I::c2(l), I::c2(r), unit(cycled(n, true)))), cycled_flux(F), 1e3 * tol, "renaming the axes");
            }
        });
    // a contact: equal pressure and normal velocity, anything else different
    for (auto& n : dirs2) for (double dl : vec{0.01, 1, 30}) for (double dr : vec{0.01, 1, 30}) for (double p : C) for (double u : vec{0, 0.4, -0.4, 20, -20}) for (double tl : vec{0, 2}) for (double tr : vec{0, -3})
        c.each([&] (auto& o) { o << "contact moving at " << u << " along (" << n[0] << "," << n[1] << "), densities " << dl << " " << dr << ", pressure " << p << ", slip " << tl << " " << tr; }, [&]
        {
            c.interesting(); c.step();
            state l{dl, {u * n[0] - tl * n[1], u * n[1] + tl * n[0], 0}, p}, r{dr, {u * n[0] - tr * n[1], u * n[1] + tr * n[0], 0}, p};
            auto F = I::of(M::riemann_hllc(I::make(l), I::make(r), I::c2(l), I::c2(r), unit(n)));
            auto H = M::compute_hllc_variables(I::make(l), I::make(r), I::c2(l), I::c2(r), unit(n));
            double a = std::fabs(u) + 5 + std::sqrt(p / std::min(dl, dr));
            CHECK(near(H.contact_speed(), u, 1e-10 * a), "contact speed ", H.contact_speed());
            double tol = 1e-10 * (a * a * (dl + dr) + p);
            if (u > 0) same(F, I::physical(l, unit(n), 0), tol, "moving contact is smeared");
            if (u < 0) same(F, I::physical(r, unit(n), 0), tol, "moving contact is smeared");
            if (u == 0) { CHECK(near(F[0], 0, tol), "gas crosses a resting contact: ", F[0]); CHECK(near(-F[1] * n[1] + F[2] * n[0], 0, tol), "tangential momentum crosses a resting contact"); CHECK(near(F[1] * n[0] + F[2] * n[1], p, tol), "pressure at a resting contact"); }
        });
}
static void fastest(ctx& c)
{
    for (auto& s : states<isothermal>(c))
        c.each([&] (auto& o) { o << "fastest wave of " << str(s); }, [&]
        {
            c.interesting(); c.step(); c.state(vf::hash(str(s)));
            double a = isothermal::make(s).max_wavespeed(isothermal::c2(s)), e = std::max(std::fabs(s.v[0]), std::fabs(s.v[1])) + std::sqrt(isothermal::c2(s));
            CHECK(vf::close(a, e, 1e-13, 0), "max_wavespeed ", a, " instead of ", e);
        });
}

int main(int argc, char** argv)
{
    return vf::main(argc, argv, {
        {"isothermal", single<isothermal>}, {"adiabatic", single<adiabatic>}, {"relativistic", single<relativistic>},
        {"isothermal-hlle", pairs<isothermal>}, {"adiabatic-hlle", pairs<adiabatic>}, {"relativistic-hlle", pairs<relativistic>},
        {"isothermal-hllc", hllc}, {"isothermal-fastest", fastest}});
}
