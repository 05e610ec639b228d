// C25: ambient-medium and jet models against numerical integrals of their own profiles.
#include "vf.hpp"
#include "model_atmosphere.hpp"
#include "model_jet_nozzle.hpp"
using vf::ctx;
typedef std::vector<double> vec;

template<typename F> static double integrate(F f, double a, double b, int n)   // Simpson's rule in log r
{
    double h = std::log(b / a) / n, s = 0;
    for (int i = 0; i <= n; ++i) { double r = i == 0 ? a : i == n ? b : a * std::exp(h * i); s += (i == 0 || i == n ? 1 : i % 2 ? 4 : 2) * f(r) * r; }
    return s * h / 3;
}
static bool near(double a, double b, double rel) { return std::isfinite(a) && std::fabs(a - b) <= rel * std::fabs(b); }

static void power_law(ctx& c)
{
    using A = mara::power_law_atmosphere_model;
    vec N1 = c.thorough() ? vec{0, 0.5, 1, 1.5, 2, 2.5, 3, 3.5, 4} : vec{0, 1, 2, 3, 3.5};
    for (double f0 : c.thorough() ? vec{1, 0.01, 30, 1e-12, 1e9} : vec{1, 0.01, 30}) for (double r0 : {1.0, 0.2, 1e8}) for (double x : c.thorough() ? vec{1.01, 1.5, 10, 100, 300} : vec{1.5, 10, 300}) for (double n1 : N1) for (double n2 : {3.5, 4.0, 6.0})
        c.each([&] (auto& o) { o << "f0=" << f0 << " r0=" << r0 << " rc/r0=" << x << " n1=" << n1 << " n2=" << n2; }, [&]
        {
            double rc = r0 * x; c.step(20); c.interesting(f0 != 1); c.state(vf::hash(vf::cat(f0, r0, x, n1, n2)));
            auto is = [&] (const A& a, double f, double r, double k, double i, double j) { return a.f0 == f && a.r0 == r && a.rc == k && a.n1 == i && a.n2 == j; };
            auto d = A(); auto a = d.with_coefficient(f0).with_inner_radius(r0).with_cutoff_radius(rc).with_inner_index(n1).with_outer_index(n2);
            CHECK(is(a, f0, r0, rc, n1, n2), "parameters"); CHECK(is(d, 1, 1, 100, 2, 6), "the model itself was changed");
            double last = 0;
            for (double y : {0.5, 1.0, 1.0001, 1.2, 2.0, 5.0, 10.0, 40.0, 300.0, 1000.0})
            {
                double r = y * r0, want = r <= rc ? f0 * std::pow(r / r0, -n1) : f0 * std::pow(rc / r0, -n1) * std::pow(r / rc, -n2);
                CHECK(near(a.density_at(r), want, 1e-12), "density at ", r, " is ", a.density_at(r), " instead of ", want);
                CHECK(last == 0 || a.density_at(r) <= last * (1 + 1e-12), "density grows outwards"); last = a.density_at(r);
            }
            CHECK(near(a.density_at(rc * (1 + 1e-9)), a.density_at(rc * (1 - 1e-9)), 1e-7), "density jumps at the cutoff");
            auto shell = [&] (double r) { return 4 * M_PI * r * r * a.density_at(r); };
            double in = integrate(shell, r0, rc, 400), out = integrate(shell, rc * (1 + 1e-14), rc * 1e3, 2000), tail = shell(rc * 1e3) * rc * 1e3 / (n2 - 3);
            CHECK(near(a.mass_within_cutoff(), in, 1e-7), "mass within the cutoff is ", a.mass_within_cutoff(), " instead of ", in);
            CHECK(near(a.mass_beyond_cutoff(), out + tail, 1e-7), "mass beyond the cutoff is ", a.mass_beyond_cutoff(), " instead of ", out + tail);
            CHECK(near(a.total_mass(), in + out + tail, 1e-7), "total mass");
            for (double m : {1.0, 0.125, 7e20})
            {
                auto b = a.with_total_mass(m);
                CHECK(near(b.total_mass(), m, 1e-12), "the model made to have mass ", m, " has mass ", b.total_mass());
                CHECK(b.r0 == r0 && b.rc == rc && b.n1 == n1 && b.n2 == n2, "setting the mass changes the profile"); CHECK(near(b.density_at(1.3 * r0) / b.density_at(0.7 * rc), a.density_at(1.3 * r0) / a.density_at(0.7 * rc), 1e-12), "setting the mass changes the profile");
            }
            for (double bad : {3.0, 2.0, 0.0}) CHECK(vf::throws([&] { a.with_outer_index(bad).total_mass(); }) && vf::throws([&] { a.with_outer_index(bad).mass_beyond_cutoff(); }), "infinite mass is not refused, n2=", bad);
        });
}
static void cloud(ctx& c)
{
    const double C = mara::cloud_and_envelop_model::light_speed, sun = mara::cloud_and_envelop_model::solar_mass;
    bool T = c.thorough();
    for (double t : {1.0, 0.5, 20.0}) for (double u1 : T ? vec{4, 0.5, 1, 10, 20, 60} : vec{4, 1, 20}) for (double me : {0.005 * sun, 1e-4 * sun}) for (double m1 : {1e26, 1e28}) for (double psi : T ? vec{0.25, 0.1, 0.15, 0.5, 0.8} : vec{0.25, 0.15, 0.5}) for (double n1 : T ? vec{2, 0, 1, 2.5, 3, 3.5} : vec{2, 0, 3})
        c.each([&] (auto& o) { o << "t=" << t << " u1=" << u1 << " envelop mass " << me << " m1=" << m1 << " psi=" << psi << " cloud index " << n1; }, [&]
        {
            c.step(60); c.interesting(true); c.state(vf::hash(vf::cat(t, u1, me, m1, psi, n1)));
            auto d = mara::cloud_and_envelop_model(); d.u1 = u1; d.envelop_mass = me; d.m1 = m1; d.psi = psi;
            double vc = 0; { double u = u1 * std::pow(me / m1, -psi); vc = u / std::sqrt(1 + u * u) * C; }
            double r0 = vc * t / 50; auto a = d.with_inner_radius(r0).with_cloud_index(n1);
            CHECK(a.inner_radius == r0 && a.cloud_index == n1 && a.u1 == u1 && a.m1 == m1 && a.psi == psi && a.envelop_mass == me && d.inner_radius == 3e8 && d.cloud_index == 2, "parameters");
            double rc = vc * t, b1 = u1 / std::sqrt(1 + u1 * u1), r1 = b1 * C * t;
            CHECK(near(a.cloud_velocity(), vc, 1e-12) && near(a.cloud_outer_boundary(t), rc, 1e-12) && near(a.envelop_outer_boundary(t), r1, 1e-12), "boundaries");
            CHECK(near(a.cloud_gamma_beta(), u1 * std::pow(me / m1, -psi), 1e-9), "four-velocity of the cloud");
            double last = 0;
            for (int i = 0; i <= 40; ++i)
            {
                double m = m1 * std::pow(me / m1, i / 40.0), u = u1 * std::pow(m / m1, -psi), b = u / std::sqrt(1 + u * u), r = b * C * t;
                CHECK(near(a.gamma_beta(m), u, 1e-12) && near(a.velocity(m), b * C, 1e-12) && near(a.radius(m, t), r, 1e-12) && near(a.dudm(m), -psi * u / m, 1e-12), "shell ", i);
                double rho = (1 + u * u) * b / (4 * M_PI * r * r * r) * m / (psi * u);
                CHECK(near(a.density(m, t), rho, 1e-11), "density of shell ", i);
                double mm = a.mass_coordinate(r, t);
                CHECK(near(a.radius(mm, t), r, 1e-8), "mass coordinate of radius ", r, " of shell ", i, " is ", mm, " instead of ", m);
                if (i > 0 && i < 40) CHECK(near(a.density_at(r, t), rho, 1e-4) && near(a.gamma_beta_at(r, t), u, 1e-5) && near(a.velocity_at(r, t), b * C, 1e-6), "profile at shell ", i, ": density ", a.density_at(r, t), " instead of ", rho, ", four-velocity ", a.gamma_beta_at(r, t), " instead of ", u);
                CHECK(last == 0 || r < last, "shells cross"); last = r;
            }
            for (double x : {0.02, 0.1, 0.5, 0.999})
            {
                double r = x * rc; CHECK(near(a.density_at(r, t), a.density_at(rc, t) * std::pow(x, -n1), 1e-11) && near(a.power_law_cloud(r, t), a.density_at(r, t), 1e-12), "density in the cloud at ", r);
                CHECK(near(a.velocity_at(r, t), vc, 1e-12) && near(a.gamma_beta_at(r, t), a.cloud_gamma_beta(), 1e-12), "velocity in the cloud at ", r);
            }
            for (double x : {1.001, 1.5, 10.0}) CHECK(near(a.density_at(x * r1, t), a.density_at(r1, t) / x / x, 1e-11) && near(a.gamma_beta_at(x * r1, t), u1, 1e-6), "beyond the envelop");
            for (double r : {rc, r1}) CHECK(near(a.density_at(r * (1 + 1e-12), t), a.density_at(r * (1 - 1e-12), t), 1e-3) && near(a.velocity_at(r * (1 + 1e-12), t), a.velocity_at(r * (1 - 1e-12), t), 1e-4), "the profile jumps at ", r);
            // the mass of the envelop is what its shells hold
            auto shell = [&] (double r) { double u = a.gamma_beta_at(r, t); return 4 * M_PI * r * r * a.density_at(r, t) * std::sqrt(1 + u * u); };
            double sum = 0; for (int i = 0; i < 200; ++i) { auto R = [&] (double k) { double m = m1 * std::pow(me / m1, k / 200.0), u = u1 * std::pow(m / m1, -psi); return u / std::sqrt(1 + u * u) * C * t; }; sum += integrate(shell, R(i + 1) * (i == 199 ? 1 + 1e-9 : 1), R(i), 4); }
            CHECK(near(sum, me - m1, 1e-3), "the envelop holds ", sum, " instead of ", me - m1);
            double cm = integrate([&] (double r) { return 4 * M_PI * r * r * a.density_at(r, t); }, r0, rc * (1 - 1e-14), 400);
            CHECK(near(a.cloud_mass(t), cm, 1e-6), "cloud mass ", a.cloud_mass(t), " instead of ", cm); CHECK(near(a.total_mass(t), cm + me, 1e-6), "total mass");
        });
}
static void nozzle(ctx& c)
{
    using J = mara::jet_nozzle_model; const double C = J::light_speed_cgs;
    bool T = c.thorough();
    for (double E : {1.0, 1e51}) for (double G : T ? vec{2, 10, 30, 300} : vec{2, 30}) for (double tj : T ? vec{1, 0.2, 50} : vec{1, 0.2}) for (double qj : T ? vec{0.005, 0.02, 0.1, 0.2, 0.3, 0.4} : vec{0.02, 0.1, 0.3}) for (double as : {2.0, 1.0, 4.0}) for (double r0 : {1.0, 3e8})
        c.each([&] (auto& o) { o << "Ej=" << E << " G0=" << G << " tj=" << tj << " qj=" << qj << " as=" << as << " r0=" << r0; }, [&]
        {
            c.step(30); c.interesting(true); c.state(vf::hash(vf::cat(E, G, tj, qj, as, r0)));
            auto d = J(); auto j = d.with_total_energy(E).with_lorentz_factor(G).with_jet_duration(tj).with_opening_angle(qj).with_structure_exponent(as).with_inner_radius(r0);
            CHECK(j.Ej == E && j.G0 == G && j.tj == tj && j.qj == qj && j.as == as && j.r0 == r0 && d.Ej == 1 && d.G0 == 2 && d.tj == 1 && d.qj == 0.1 && d.as == 2 && d.r0 == 1, "parameters");
            double dj = j.density_at_base();
            CHECK(near(j.gamma_beta(0, 0), G, 1e-12), "Lorentz factor on the axis at the start");
            for (double q : {0.0, 0.3, 1.0, 2.0}) for (double t : {0.0, 0.5, 1.0, 3.0})
            {
                double f = std::exp(-std::pow(q, as)) * std::exp(-t), u = j.gamma_beta(q * qj, t * tj), L = j.luminosity_per_steradian(q * qj, t * tj);
                CHECK(near(u * u, G * G * f, 1e-10), "four-velocity at ", q, ",", t); CHECK(near(L, dj * G * G * r0 * r0 * C * C * C * f, 1e-10), "luminosity at ", q, ",", t);
            }
            // energy of jet and counter-jet over all angles and times
            double I = 0; int n = 4000; double h = std::min(8 * qj, M_PI) / n; if (as < 2) h = M_PI / n;
            for (int i = 0; i <= n; ++i) I += (i == 0 || i == n ? 1 : i % 2 ? 4 : 2) * 2 * M_PI * std::sin(i * h) * j.luminosity_per_steradian(i * h, 0.0); I *= h / 3 * tj * 2;
            double slack = as == 2 ? 0.35 * qj * qj + 1e-6 : as == 4 ? 0.15 : 1.1;
            CHECK(near(I, E, slack), "the jets carry ", I, " instead of ", E);
        });
}
int main(int argc, char** argv) { return vf::main(argc, argv, {{"power-law", power_law}, {"cloud", cloud}, {"nozzle", nozzle}}); }
