// C16: primitive and conserved variables convert back and forth exactly.
#include "vf.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "core_geometric.hpp"
#include "core_rational.hpp"
#include "physics_iso2d.hpp"
#include "physics_euler.hpp"
#include "physics_srhd.hpp"
using vf::ctx;
typedef long double ld;
typedef std::vector<double> vec;

static bool near(double a, ld b, double rel=1e-12, double abs=0) { return std::isfinite(a) && fabsl(a - b) <= abs + rel * std::max<ld>(fabsl(a), fabsl(b)); }
template<typename T> static double val(const T& x) { if constexpr (std::is_arithmetic<T>::value) return x; else return x.value; }

// the values a component of velocity takes: rest, both signs, slow, sonic, fast
static vec velocities(ctx& c, bool deep) { return deep && c.thorough() ? vec{0, 1e-8, -1e-3, 0.1, 0.5, -0.9, 1, -3, 17, 1e4} : vec{0, 1e-8, 0.1, -0.9, 3, -1e4}; }
static const vec gammas{1.01, 4./3, 1.4, 5./3, 2.0};

// ---------------------------------------------------------------- isothermal
static void iso(ctx& c)
{
    using G = mara::iso2d; using P = G::primitive_t;
    auto S = c.thorough() ? vec{1e-12, 1e-6, 0.01, 0.3, 1, 7, 1e3, 1e8} : vec{1e-12, 0.01, 1, 7, 1e8};
    auto V = velocities(c, true);
    auto X = c.thorough() ? vec{-12, -1, -0.03, 0, 1e-6, 0.25, 1, 40} : vec{-12, -0.03, 0, 1, 40};
    auto C = vec{1e-10, 0.01, 1, 25};
    for (double s : S) for (double u : V) for (double v : V)
        c.each([&] (auto& o) { o << "isothermal sigma=" << s << " v=(" << u << "," << v << ")"; }, [&]
        {
            c.state(vf::mix(vf::bits(s), vf::mix(vf::bits(u), vf::bits(v)))); c.interesting(u != 0 || v != 0);
            auto p = P().with_velocity_y(v).with_sigma(s).with_velocity_x(u);
            CHECK(p.sigma() == s && p.velocity_x() == u && p.velocity_y() == v, "named members");
            auto q = p.with_sigma(2 * s); CHECK(q.sigma() == 2 * s && q.velocity_x() == u && q.velocity_y() == v && p.sigma() == s, "with_sigma changes more than the density");
            CHECK(near(p.velocity_squared(), ld(u) * u + ld(v) * v), "velocity_squared ", p.velocity_squared());
            CHECK(near(p.velocity_magnitude().value, sqrtl(ld(u) * u + ld(v) * v)), "velocity_magnitude");
            auto vv = p.velocity(); CHECK(vv[0] == u && vv[1] == v && vv[2] == 0, "velocity vector");
            auto U = p.to_conserved_per_area();
            CHECK(val(mara::get<0>(U)) == s, "mass per area");
            CHECK(near(val(mara::get<1>(U)), ld(s) * u) && near(val(mara::get<2>(U)), ld(s) * v), "momentum per area");
            auto m = G::momentum_vector(U); CHECK(near(val(m[0]), ld(s) * u) && near(val(m[1]), ld(s) * v), "momentum_vector");
            auto r = G::recover_primitive(U);
            CHECK(near(r.sigma(), s) && near(r.velocity_x(), u) && near(r.velocity_y(), v), "round trip gives (", r.sigma(), ",", r.velocity_x(), ",", r.velocity_y(), ")");
            auto W = U; W = G::conserved_per_area_t().set<0>(-val(mara::get<0>(U))).set<1>(val(mara::get<1>(U))).set<2>(val(mara::get<2>(U)));
            CHECK(vf::throws([&] { G::recover_primitive(W); }), "negative density is not refused");
            for (double c2 : C)
            {
                c.step();
                CHECK(near(p.gas_pressure(c2), ld(s) * c2), "pressure");
                auto src = p.source_terms_conserved_angmom(c2);
                ld ek = 0.5L * s * (ld(u) * u + ld(v) * v);
                CHECK(val(mara::get<0>(src)) == 0 && val(mara::get<2>(src)) == 0 && near(val(mara::get<1>(src)), 2 * (ek + ld(s) * c2)), "source terms: only the radial momentum grows, by twice kinetic energy and pressure");
            }
            for (double x : X) for (double y : X)
            {
                if (x == 0 && y == 0) continue;
                c.step();
                auto pos = G::location_2d_t{mara::make_length(x), mara::make_length(y)};
                ld sr = ld(s) * (ld(x) * u + ld(y) * v), lz = ld(s) * (ld(x) * v - ld(y) * u);
                double scale = s * std::hypot(x, y) * std::hypot(u, v) * 1e-14 + 1e-300;
                auto Q = p.to_conserved_angmom_per_area(pos);
                CHECK(val(mara::get<0>(Q)) == s && near(val(mara::get<1>(Q)), sr, 1e-13, scale) && near(val(mara::get<2>(Q)), lz, 1e-13, scale), "angular-momentum variables at (", x, ",", y, ")");
                CHECK(near(val(G::angular_momentum(U, pos)), lz, 1e-13, scale), "angular_momentum at (", x, ",", y, ")");
                auto b = G::recover_primitive(Q, pos);
                double vs = std::hypot(u, v) * 1e-13 + 1e-300;
                CHECK(near(b.sigma(), s) && near(b.velocity_x(), u, 0, vs) && near(b.velocity_y(), v, 0, vs), "round trip through angular momentum at (", x, ",", y, ") gives (", b.sigma(), ",", b.velocity_x(), ",", b.velocity_y(), ")");
                auto T = G::to_conserved_per_area(Q, pos);
                CHECK(near(val(mara::get<0>(T)), s) && near(val(mara::get<1>(T)), ld(s) * u, 0, s * vs) && near(val(mara::get<2>(T)), ld(s) * v, 0, s * vs), "to_conserved_per_area at (", x, ",", y, ")");
                auto N = G::conserved_angmom_per_area_t().set<0>(-s).set<1>(val(mara::get<1>(Q))).set<2>(val(mara::get<2>(Q)));
                CHECK(vf::throws([&] { G::recover_primitive(N, pos); }), "negative density is not refused");
                // fluxes of angular momentum are the moments of the momentum fluxes
                auto F = G::flux_t().set<0>(s).set<1>(u).set<2>(v);
                auto A = G::to_conserved_angmom_flux(F, pos);
                double fs = std::hypot(x, y) * std::hypot(u, v) * 1e-14 + 1e-300;
                CHECK(val(mara::get<0>(A)) == s && near(val(mara::get<1>(A)), ld(x) * u + ld(y) * v, 1e-13, fs) && near(val(mara::get<2>(A)), ld(x) * v - ld(y) * u, 1e-13, fs), "flux of angular momentum");
            }
        });
}

// ----------------------------------------------------------------- adiabatic
static void adiabatic(ctx& c)
{
    using G = mara::euler; using P = G::primitive_t;
    auto D = c.thorough() ? vec{1e-12, 1e-5, 0.3, 1, 40, 1e8} : vec{1e-12, 0.3, 1, 1e8};
    auto T = c.thorough() ? vec{1e-8, 1e-4, 0.02, 1, 30, 1e6} : vec{1e-6, 0.02, 1, 1e6};
    auto V = velocities(c, false);
    for (double g : gammas) for (double d : D) for (double t : T) for (double u : V) for (double v : V) for (double w : V)
    {
        double p = d * t;
        c.each([&] (auto& o) { o << "adiabatic gamma=" << g << " rho=" << d << " p=" << p << " v=(" << u << "," << v << "," << w << ")"; }, [&]
        {
            c.state(vf::mix(vf::mix(vf::bits(d), vf::bits(p)), vf::mix(vf::bits(u), vf::mix(vf::bits(v), vf::bits(w))))); c.interesting(u || v || w);
            auto s = P().with_gas_pressure(p).with_velocity_1(u).with_velocity_3(w).with_velocity_2(v).with_mass_density(d);
            CHECK(s.mass_density() == d && s.velocity_1() == u && s.velocity_2() == v && s.velocity_3() == w && s.gas_pressure() == p, "named members");
            ld v2 = ld(u) * u + ld(v) * v + ld(w) * w, e = ld(p) / (ld(g) - 1);
            CHECK(near(s.velocity_squared(), v2), "velocity_squared");
            CHECK(near(s.enthalpy_density(g), e + p) && near(s.specific_enthalpy(g), (e + p) / d), "enthalpy is not internal energy plus pressure");
            CHECK(near(s.sound_speed_squared(g), ld(g) * p / d), "sound speed");
            CHECK(near(std::exp(s.specific_entropy(g)), ld(p) / powl(d, g), 1e-9), "entropy");
            auto U = s.to_conserved_density(g);
            CHECK(U[0].value == d && near(U[1].value, ld(d) * u) && near(U[2].value, ld(d) * v) && near(U[3].value, ld(d) * w), "mass and momentum density");
            CHECK(near(U[4].value, 0.5L * d * v2 + e), "energy density ", U[4].value);
            c.step(4);
            double perr = 1e-14 * double(0.5L * d * v2 + e) * (g - 1) + 1e-13 * p;
            for (double f : {0.0, 1e-30, 0.25 * t})
            {
                auto r = G::recover_primitive(U, g, f);
                CHECK(near(r.mass_density(), d) && near(r.velocity_1(), u) && near(r.velocity_2(), v) && near(r.velocity_3(), w), "round trip with floor ", f);
                if (f == 0 || perr < 0.5 * p) CHECK(near(r.gas_pressure(), p, 0, perr), "pressure after the round trip, floor ", f, ": ", r.gas_pressure());
            }
            // floor: pressure is never below the stated temperature
            for (double f : {0.5 * t, 2 * t, 100 * t})
            {
                auto r = G::recover_primitive(U, g, f);
                CHECK(near(r.gas_pressure(), std::max<ld>(p, ld(f) * d), 1e-12, perr), "floor temperature ", f, " gives pressure ", r.gas_pressure());
                CHECK(near(r.mass_density(), d) && near(r.velocity_1(), u), "the floor changes other variables");
                auto L = U; L[4].value -= 2 * double(e) ;
                auto q = G::recover_primitive(L, g, f);
                CHECK(near(q.gas_pressure(), ld(f) * d, 1e-12, perr), "energy below the kinetic energy is not floored: ", q.gas_pressure());
            }
            // sources of the spherical geometry against the divergence of the stress tensor
            for (double r : {0.5, 30.0}) for (double th : {0.3, M_PI_2, 2.5})
            {
                auto S = s.spherical_geometry_source_terms(r, th, g);
                ld cot = cosl(th) / sinl(th);
                double sc = 1e-12 * (p + d * double(v2)) / r * (1 + std::fabs(double(cot)));
                CHECK(S[0].value == 0 && S[4].value == 0, "geometry makes mass or energy");
                CHECK(near(S[1].value, (2 * ld(p) + d * (ld(v) * v + ld(w) * w)) / r, 1e-12, sc) && near(S[2].value, (cot * p + d * (ld(w) * w * cot - ld(u) * v)) / r, 1e-12, sc) && near(S[3].value, -ld(d) * w * (u + v * cot) / r, 1e-12, sc), "spherical source terms");
                if (w == 0) { auto R = s.spherical_geometry_source_terms_radial(r, g); CHECK(near(R[1].value, (2 * ld(p) + d * ld(v) * v) / r, 1e-12, sc) && R[0].value == 0 && R[4].value == 0, "radial source terms"); }
            }
        });
    }
}

// -------------------------------------------------------------- relativistic
static void relativistic(ctx& c)
{
    using G = mara::srhd; using P = G::primitive_t;
    auto D = c.thorough() ? vec{1e-12, 1e-8, 1e-4, 0.3, 1, 40, 1e5, 1e10} : vec{1e-12, 1e-6, 1, 1e3, 1e10};
    auto T = c.thorough() ? vec{1e-9, 1e-6, 1e-4, 1e-2, 0.2, 1, 30, 1e3, 1e5} : vec{1e-8, 1e-4, 0.1, 1, 1e2, 1e4};
    auto M = c.thorough() ? vec{0, 1e-6, 1e-3, 0.05, 0.3, 1, 3, 10, 40, 300} : vec{0, 1e-4, 0.1, 1, 10, 100};
    std::vector<vec> N = {{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {0.6, -0.48, 0.64}, {-0.6, 0.64, -0.48}};
    for (double g : {1.1, 4./3, 1.4, 5./3, 1.9}) for (double d : D) for (double t : T) for (double m : M) for (auto& n : N)
    {
        if (m == 0 && &n != &N[0]) continue;
        double p = d * t, u = m * n[0], v = m * n[1], w = m * n[2];
        c.each([&] (auto& o) { o << "relativistic gamma=" << g << " rho=" << d << " p=" << p << " u=(" << u << "," << v << "," << w << ")"; }, [&]
        {
            c.state(vf::mix(vf::mix(vf::bits(d), vf::bits(p)), vf::mix(vf::bits(u), vf::mix(vf::bits(v), vf::bits(w))))); c.interesting(m > 0);
            auto s = P().with_gamma_beta_3(w).with_gas_pressure(p).with_gamma_beta_2(v).with_mass_density(d).with_gamma_beta_1(u);
            CHECK(s.mass_density() == d && s.gamma_beta_1() == u && s.gamma_beta_2() == v && s.gamma_beta_3() == w && s.gas_pressure() == p, "named members");
            ld u2 = ld(u) * u + ld(v) * v + ld(w) * w, W = sqrtl(1 + u2), H = ld(d) + ld(p) * g / (ld(g) - 1), h = H / d;
            CHECK(near(s.gamma_beta_squared(), u2) && near(s.lorentz_factor(), W), "four-velocity and Lorentz factor");
            CHECK(near(s.enthalpy_density(g), H) && near(s.specific_enthalpy(g), h), "enthalpy");
            CHECK(near(s.sound_speed_squared(g), ld(g) * p / H), "sound speed");
            CHECK(s.sound_speed_squared(g) >= 0 && s.sound_speed_squared(g) < 1, "sound faster than light");
            CHECK(near(std::exp(s.specific_entropy(g)), ld(p) / powl(d, g), 1e-9), "entropy");
            for (int a = 0; a < 3; ++a) CHECK(near(s.beta_along(mara::unit_vector_t::on_axis(a)), (a == 0 ? u : a == 1 ? v : w) / W, 1e-13), "velocity along axis ", a);
            auto U = s.to_conserved_density(g);
            ld DD = d * W, E = DD * h * W - p - DD;
            CHECK(near(U[0].value, DD) && near(U[1].value, DD * h * u) && near(U[2].value, DD * h * v) && near(U[3].value, DD * h * w), "mass and momentum density");
            CHECK(near(U[4].value, E, 1e-12, 1e-14 * double(DD * h * W)), "energy density ", U[4].value);
            c.step(3);
            double W2 = double(W * W);
            double perr = 1e-9 + 2e-14 * W2 * (1 + 1 / t), verr = 1e-9 + 1e-10 * W2;
            if (perr < 0.05) for (double f : {0.0, 1e-30, 0.5 * t})
            {
                auto r = G::recover_primitive(U, g, f);
                CHECK(near(r.mass_density(), d, verr) && near(r.gamma_beta_1(), u, verr, 1e-300) && near(r.gamma_beta_2(), v, verr, 1e-300) && near(r.gamma_beta_3(), w, verr, 1e-300),
                    "round trip with floor ", f, " gives (", r[0], ",", r[1], ",", r[2], ",", r[3], ",", r[4], ")");
                CHECK(near(r.gas_pressure(), p, perr), "pressure after the round trip, floor ", f, ": ", r.gas_pressure());
            }
            if (perr < 0.05) for (double f : {2 * t, 10 * t})
            {
                auto r = G::recover_primitive(U, g, f);
                CHECK(near(r.gas_pressure(), ld(f) * d, 1e-12 + verr) && near(r.mass_density(), d, verr), "floor temperature ", f, " gives pressure ", r.gas_pressure());
            }
            // what no physical state can have produced is reported
            auto bad = [&] (double k0, double km, double ke, double floor)
            {
                auto B = U; B[0].value *= k0; for (int i = 1; i < 4; ++i) B[i].value *= km; B[4].value *= ke;
                try { auto r = G::recover_primitive(B, g, floor); for (int i = 0; i < 5; ++i) CHECK(std::isfinite(r[i]), "recovery silently returns component ", i, " = ", r[i], " for factors ", k0, " ", km, " ", ke); CHECK(r[0] > 0 && r[4] > 0, "recovery silently returns density ", r[0], " pressure ", r[4], " for factors ", k0, " ", km, " ", ke); }
                catch (const vf::failure_t&) { throw; } catch (const std::exception&) {}
            };
            for (double fl : {0.0, 1e-6})
            {
                for (double k : {0.5, 2.0, 1e3}) { bad(1, k, 1, fl); bad(k, 1, 1, fl); bad(1, 1, k, fl); bad(k, k, 1, fl); }
                bad(-1, 1, 1, fl); bad(1, 1, -1, fl); bad(-1, 1, -1, fl); bad(0, 1, 1, fl); bad(1, 1, 0, fl); bad(0, 0, 0, fl); bad(NAN, 1, 1, fl); bad(1, NAN, 1, fl); bad(1, 1, NAN, fl); bad(1, 1, INFINITY, fl); bad(INFINITY, 1, 1, fl);
            }
            CHECK(vf::throws([&] { auto B = U; B[0].value *= -1; G::recover_primitive(B, g, 0.0); }), "negative density is not refused");
            // sources of the spherical geometry
            for (double r : {0.5, 30.0}) for (double th : {0.3, M_PI_2, 2.5})
            {
                auto S = s.spherical_geometry_source_terms(r, th, g);
                ld cot = cosl(th) / sinl(th);
                double sc = 1e-12 * double((p + H * u2) / r * (1 + fabsl(cot)));
                CHECK(S[0].value == 0 && S[4].value == 0, "geometry makes mass or energy");
                CHECK(near(S[1].value, (2 * ld(p) + H * (ld(v) * v + ld(w) * w)) / r, 1e-12, sc) && near(S[2].value, (cot * p + H * (ld(w) * w * cot - ld(u) * v)) / r, 1e-12, sc) && near(S[3].value, -H * w * (u + v * cot) / r, 1e-12, sc), "spherical source terms");
                if (w == 0) { auto R = s.spherical_geometry_source_terms_radial(r, g); CHECK(near(R[1].value, (2 * ld(p) + H * ld(v) * v) / r, 1e-12, sc) && R[0].value == 0 && R[4].value == 0, "radial source terms"); }
            }
        });
    }
}

// slow flow: the relativistic gas becomes the adiabatic one
static void classical(ctx& c)
{
    for (double g : {4./3, 5./3}) for (double d : {1e-3, 1.0, 50.0}) for (double t : {1e-9, 1e-8}) for (double u : {0.0, 1e-5, -3e-5}) for (double v : {0.0, 2e-5}) for (double w : {0.0, -1e-5})
        c.each([&] (auto& o) { o << "slow cold flow gamma=" << g << " rho=" << d << " T=" << t << " v=(" << u << "," << v << "," << w << ")"; }, [&]
        {
            c.state(vf::mix(vf::bits(d), vf::mix(vf::bits(u + 7 * v + 11 * w), vf::bits(t)))); c.interesting(); c.step();
            auto R = mara::srhd::primitive_t().with_mass_density(d).with_gas_pressure(d * t).with_gamma_beta_1(u).with_gamma_beta_2(v).with_gamma_beta_3(w).to_conserved_density(g);
            auto N = mara::euler::primitive_t().with_mass_density(d).with_gas_pressure(d * t).with_velocity_1(u).with_velocity_2(v).with_velocity_3(w).to_conserved_density(g);
            for (int i = 0; i < 4; ++i) CHECK(vf::close(R[i].value, N[i].value, 1e-6, 0), "component ", i);
            CHECK(vf::close(R[4].value, N[4].value, 1e-5, 1e-15 * d), "energy");
        });
}

// directions: always of length one, projections as scalar products
static void directions(ctx& c)
{
    auto A = c.thorough() ? vec{-1e6, -3, -1, -0.02, 0, 1e-5, 0.5, 1, 2, 77} : vec{-3, -1, 0, 1e-5, 0.5, 1, 77};
    for (double a : A) for (double b : A) for (double d : A)
    {
        if (!a && !b && !d) continue;
        c.each([&] (auto& o) { o << "direction (" << a << "," << b << "," << d << ")"; }, [&]
        {
            c.state(vf::mix(vf::bits(a), vf::mix(vf::bits(b), vf::bits(d)))); c.interesting(); c.step();
            mara::unit_vector_t n(a, b, d);
            ld L = sqrtl(ld(a) * a + ld(b) * b + ld(d) * d);
            CHECK(near(n.get_n1(), a / L) && near(n.get_n2(), b / L) && near(n.get_n3(), d / L), "components (", n.get_n1(), ",", n.get_n2(), ",", n.get_n3(), ")");
            CHECK(n[0] == n.get_n1() && n[1] == n.get_n2() && n[2] == n.get_n3(), "indexed components");
            CHECK(vf::throws([&] { n[3]; }), "component 3 is not refused");
            for (double x : {0.0, 2.0}) for (double y : {-1.0, 0.0, 3.0}) for (double z : {0.0, 5.0})
            {
                CHECK(near(n.project(x, y, z), (x * a + y * b + z * d) / L, 1e-12, 1e-13), "projection");
                auto q = n * x; CHECK(near(q[0], x * a / L) && near(q[1], x * b / L) && near(q[2], x * d / L), "scaled direction");
            }
        });
    }
    c.each([&] (auto& o) { o << "axes"; }, [&]
    {
        for (int k = 0; k < 3; ++k) { auto n = mara::unit_vector_t::on_axis(k); for (int i = 0; i < 3; ++i) CHECK(n[i] == (i == k), "axis ", k); }
        CHECK(mara::unit_vector_t::on_axis_1()[0] == 1 && mara::unit_vector_t::on_axis_2()[1] == 1 && mara::unit_vector_t::on_axis_3()[2] == 1, "named axes");
        CHECK(vf::throws([] { mara::unit_vector_t::on_axis(3); }), "axis 3 is not refused");
        mara::unit_vector_t n; CHECK(n[0] == 1 && n[1] == 0 && n[2] == 0, "default direction");
    });
}

int main(int argc, char** argv)
{
    return vf::main(argc, argv, {{"isothermal", iso}, {"adiabatic", adiabatic}, {"relativistic", relativistic}, {"classical-limit", classical}, {"directions", directions}});
}
