// C20: two-body orbits against an independent solution of Kepler's problem.
#include "vf.hpp"
#include "model_two_body.hpp"
using vf::ctx;
typedef long double ld;
typedef std::vector<double> vec;
static const ld PI = acosl(-1.0L);

struct st { ld m1, m2, x1, y1, x2, y2, u1, v1, u2, v2; };
static st ref(ld a, ld M, ld q, ld e, ld t)
{
    ld w = sqrtl(M / (a * a * a)), m = remainderl(w * t, 2 * PI), lo = -PI, hi = PI;
    for (int i = 0; i < 200; ++i) { ld x = 0.5L * (lo + hi); (x - e * sinl(x) - m < 0 ? lo : hi) = x; }
    ld E = 0.5L * (lo + hi), b = sqrtl((1 - e) * (1 + e)), d = 1 - e * cosl(E);
    ld x = a * (cosl(E) - e), y = a * b * sinl(E), u = -a * w * sinl(E) / d, v = a * w * b * cosl(E) / d;   // separation vector, body 1 minus body 2
    ld f1 = q / (1 + q), f2 = 1 / (1 + q);
    return {M / (1 + q), M * q / (1 + q), f1 * x, f1 * y, -f2 * x, -f2 * y, f1 * u, f1 * v, -f2 * u, -f2 * v};
}
static st turn(st s, ld p, ld X, ld Y, ld U, ld V)
{
    ld c = cosl(p), n = sinl(p);
    auto r = [&] (ld& x, ld& y, ld dx, ld dy) { ld a = x * c - y * n + dx, b = x * n + y * c + dy; x = a; y = b; };
    r(s.x1, s.y1, X, Y); r(s.x2, s.y2, X, Y); r(s.u1, s.v1, U, V); r(s.u2, s.v2, U, V); return s;
}
static void same(const mara::two_body_state_t& a, const st& b, ld px, ld pv, const char* what)
{
    CHECK(fabsl(a.body1.mass - b.m1) <= 1e-13L * (b.m1 + b.m2) && fabsl(a.body2.mass - b.m2) <= 1e-13L * (b.m1 + b.m2), what, ": masses ", a.body1.mass, " ", a.body2.mass);
    auto one = [&] (double h, ld w, ld tol, const char* n) { CHECK(fabsl(h - w) <= tol, what, ": ", n, " is ", h, " instead of ", double(w)); };
    one(a.body1.position_x, b.x1, px, "x of body 1"); one(a.body1.position_y, b.y1, px, "y of body 1"); one(a.body2.position_x, b.x2, px, "x of body 2"); one(a.body2.position_y, b.y2, px, "y of body 2");
    one(a.body1.velocity_x, b.u1, pv, "x velocity of body 1"); one(a.body1.velocity_y, b.v1, pv, "y velocity of body 1"); one(a.body2.velocity_x, b.u2, pv, "x velocity of body 2"); one(a.body2.velocity_y, b.v2, pv, "y velocity of body 2");
}
static vec ecc(ctx& c) { return c.thorough() ? vec{0, 1e-8, 1e-4, 0.01, 0.1, 0.25, 0.5, 0.75, 0.9, 0.95, 0.98, 0.99} : vec{0, 1e-4, 0.1, 0.5, 0.9, 0.98}; }
static vec ratios(ctx& c) { return c.thorough() ? vec{1e-3, 0.1, 0.5, 1, 2, 30} : vec{0.01, 0.5, 1, 3}; }
static vec seps(ctx& c) { return c.thorough() ? vec{0.05, 1, 7} : vec{0.25, 1, 5}; }
static vec masses(ctx& c) { return c.thorough() ? vec{0.01, 1, 9} : vec{1, 0.04}; }
static vec phases(ctx& c) { vec r; int n = c.thorough() ? 48 : 24; for (int i = -n; i < 2 * n; ++i) r.push_back(double(i) / n); for (double x : {0.003, -0.003, 0.49, 12.3, 1000.4, 200000.7}) r.push_back(x); return r; }

static void orbits(ctx& c)
{
    for (double a : seps(c)) for (double M : masses(c)) for (double q : ratios(c)) for (double e : ecc(c)) for (double ph : phases(c))
        c.each([&] (auto& o) { o << "a=" << a << " M=" << M << " q=" << q << " e=" << e << " phase " << ph; }, [&]
        {
            c.step(8); c.interesting(e > 0); c.state(vf::hash(vf::cat(a, M, q, e, ph)));
            auto el = mara::orbital_elements_t(); el.separation = a; el.total_mass = M; el.mass_ratio = q; el.eccentricity = e;
            ld w = sqrtl(ld(M) / (ld(a) * a * a)); double P = 2 * PI / w, t = ph * P;
            CHECK(std::fabs(mara::orbital_period(el) - P) <= 1e-13 * P, "period ", mara::orbital_period(el), " instead of ", P);
            ld m1 = ld(M) / (1 + ld(q)), m2 = M - m1, E = -0.5L * m1 * m2 / a, L = m1 * m2 * sqrtl((1 - ld(e)) * (1 + ld(e)) * a / M);
            CHECK(fabsl(mara::orbital_energy(el) - E) <= 1e-12L * -E, "orbital energy"); CHECK(fabsl(mara::orbital_angular_momentum(el) - L) <= 1e-12L * L / (1 - e), "orbital angular momentum");
            auto s = mara::compute_two_body_state(el, t);
            ld peri = 1 - e, tol = 1e-9L / (peri * peri) + 4e-16L * fabsl(w * t) / (peri * peri);
            same(s, ref(a, M, q, e, t), tol * a, tol * a * w / peri, "state");
            CHECK(std::fabs(mara::total_mass(s) - M) <= 1e-13 * M, "total mass");
            // conservation laws, from the state itself
            auto A = s.body1, B = s.body2; double vmax = a * double(w) / std::sqrt(double(peri));
            CHECK(std::fabs(A.mass * A.position_x + B.mass * B.position_x) <= 1e-13 * M * a * 2 && std::fabs(A.mass * A.position_y + B.mass * B.position_y) <= 1e-13 * M * a * 2, "centre of mass");
            CHECK(std::fabs(A.mass * A.velocity_x + B.mass * B.velocity_x) <= 1e-13 * M * vmax * 2 && std::fabs(A.mass * A.velocity_y + B.mass * B.velocity_y) <= 1e-13 * M * vmax * 2, "momentum");
            double r = std::hypot(A.position_x - B.position_x, A.position_y - B.position_y);
            CHECK(std::fabs(mara::separation(s) - r) <= 1e-13 * a, "separation"); CHECK(r >= a * (1 - e) * (1 - 1e-9) && r <= a * (1 + e) * (1 + 1e-9), "separation ", r, " beyond the apsides");
            double K = 0.5 * A.mass * (A.velocity_x * A.velocity_x + A.velocity_y * A.velocity_y) + 0.5 * B.mass * (B.velocity_x * B.velocity_x + B.velocity_y * B.velocity_y), U = -A.mass * B.mass / r;
            CHECK(std::fabs(mara::total_energy(s) - (K + U)) <= 1e-13 * (K - U), "total energy"); CHECK(std::fabs(K + U - E) <= 1e-12 * (K - U), "energy ", K + U, " instead of ", double(E));
            double l = A.mass * (A.position_x * A.velocity_y - A.position_y * A.velocity_x) + B.mass * (B.position_x * B.velocity_y - B.position_y * B.velocity_x);
            CHECK(std::fabs(l - L) <= 1e-12 * double(L) / double(peri), "angular momentum ", l, " instead of ", double(L));
        });
}
static void full(ctx& c)
{
    struct frame { double p, tau, X, Y, U, V; };
    std::vector<frame> F{{0, 0, 0, 0, 0, 0}, {0.7, 0.3, 0, 0, 0, 0}, {-2.5, -1.1, 1.5, -0.5, 0.125, -0.25}, {3.1, 0.9, -3, 2, 0.5, 0.5}, {-0.01, 2.6, 0.1, 0, -1, 0}, {1.5707963267948966, 0.5, 0, 7, 0, 2}};
    for (size_t f = 0; f < F.size(); ++f) for (double a : {0.25, 1.0, 5.0}) for (double M : masses(c)) for (double q : ratios(c)) for (double e : ecc(c)) for (double ph : phases(c)) if (std::fabs(ph) <= 20)
        c.each([&] (auto& o) { o << "frame " << f << " a=" << a << " M=" << M << " q=" << q << " e=" << e << " phase " << ph; }, [&]
        {
            c.step(6); c.interesting(e > 0); c.state(vf::hash(vf::cat(f, a, M, q, e, ph)));
            auto el = mara::orbital_elements_t(); el.separation = a; el.total_mass = M; el.mass_ratio = q; el.eccentricity = e;
            ld w = sqrtl(ld(M) / (ld(a) * a * a)); double P = 2 * PI / w; auto g = F[f];
            auto x = mara::make_full_orbital_elements(el);
            CHECK(x.pomega == 0 && x.tau == 0 && x.cm_position_x == 0 && x.cm_velocity_y == 0 && x.elements.mass_ratio == q && x.elements.eccentricity == e, "elements from bare elements");
            x.pomega = g.p; x.tau = g.tau * P; x.cm_position_x = g.X; x.cm_position_y = g.Y; x.cm_velocity_x = g.U; x.cm_velocity_y = g.V;
            double t = ph * P; ld peri = 1 - e, V = a * w / peri, base = 1e-9L / (peri * peri);
            auto s = mara::compute_two_body_state(x, t);
            same(s, turn(ref(a, M, q, e, ld(t) - x.tau), g.p, g.X, g.Y, g.U, g.V), base * a + 1e-14L * (fabs(g.X) + fabs(g.Y)), base * V + 1e-14L * (fabs(g.U) + fabs(g.V)), "state");
            double ma = mara::mean_anomaly(x, t); ld d = remainderl(ma - w * (ld(t) - x.tau), 2 * PI);
            CHECK(fabsl(d) <= 1e-11L, "mean anomaly ", ma, " for time ", t, " after periapse at ", x.tau, ", period ", P);
            // elements recovered from the state
            auto y = mara::compute_orbital_elements(s, t);
            ld kick = 1 + (fabs(g.X) + fabs(g.Y)) / a + (fabs(g.U) + fabs(g.V)) / (a * w), bad = 1e-9L * kick / (peri * peri);
            CHECK(fabsl(y.elements.separation - a) <= bad * a && fabsl(y.elements.total_mass - M) <= 1e-13L * M && fabsl(y.elements.mass_ratio - q) <= 1e-12L * q, "separation ", y.elements.separation, ", mass ", y.elements.total_mass, ", ratio ", y.elements.mass_ratio);
            CHECK(fabsl(y.elements.eccentricity - e) <= (e > 1e-3 ? 10 * bad / e : 1e-6L * kick), "eccentricity ", y.elements.eccentricity, " instead of ", e);
            CHECK(fabsl(y.cm_position_x - g.X) <= 1e-10L * kick * a && fabsl(y.cm_position_y - g.Y) <= 1e-10L * kick * a && fabsl(y.cm_velocity_x - g.U) <= 1e-10L * kick * V && fabsl(y.cm_velocity_y - g.V) <= 1e-10L * kick * V, "centre of mass");
            if (e >= 0.01)
            {
                CHECK(fabsl(remainderl(y.pomega - g.p, 2 * PI)) <= 1e3L * bad / e, "argument of periapse ", y.pomega, " instead of ", g.p);
                CHECK(fabsl(remainderl(w * (ld(y.tau) - x.tau), 2 * PI)) <= 1e3L * bad / e, "time of periapse ", y.tau, " instead of ", x.tau, " period ", P);
            }
            // and the state from them
            for (double later : {0.0, 0.3, -0.2})
            {
                ld tt = ld(t) + later * P; ld tol = (e > 1e-3 ? 1e3L : 1e5L) * bad;
                same(mara::compute_two_body_state(y, tt), turn(ref(a, M, q, e, tt - x.tau), g.p, g.X, g.Y, g.U, g.V), tol * a, tol * V, later ? "state later from recovered elements" : "state from recovered elements");
            }
        });
}
static void unbound(ctx& c)
{
    for (double q : ratios(c)) for (double r : {0.5, 1.0, 3.0}) for (double ang : {0.0, 1.0, 2.5, -2.0}) for (double k : {0.5, 0.9, 0.999, 1.001, 1.1, 2.0}) for (double U : {0.0, 5.0})
        c.each([&] (auto& o) { o << "q=" << q << " r=" << r << " velocity " << k << " of escape at angle " << ang << " centre moving at " << U; }, [&]
        {
            c.step(1); c.interesting(k > 1); c.state(vf::hash(vf::cat(q, r, ang, k, U)));
            double m1 = 1 / (1 + q), m2 = q / (1 + q), v = k * std::sqrt(2.0 / r);
            mara::two_body_state_t s{{m1, m2 * r, 0, m2 * v * std::cos(ang) + U, m2 * v * std::sin(ang)}, {m2, -m1 * r, 0, -m1 * v * std::cos(ang) + U, -m1 * v * std::sin(ang)}};
            bool t = vf::throws([&] { mara::compute_orbital_elements(s, 0.0); });
            CHECK(t == (k > 1), k > 1 ? "an unbound state is accepted" : "a bound state is refused");
        });
}
static void arithmetic(ctx& c)
{
    vec A{-1.5, 0, 2};
    auto mk = [&] (long k) { mara::full_orbital_elements_t r; double* p[10] = {&r.pomega, &r.tau, &r.cm_position_x, &r.cm_position_y, &r.cm_velocity_x, &r.cm_velocity_y, &r.elements.separation, &r.elements.total_mass, &r.elements.mass_ratio, &r.elements.eccentricity}; for (int i = 0; i < 10; ++i) *p[i] = k * (i + 1) + 0.25 * i * i; return r; };
    auto all = [&] (const mara::full_orbital_elements_t& r) { return vec{r.pomega, r.tau, r.cm_position_x, r.cm_position_y, r.cm_velocity_x, r.cm_velocity_y, r.elements.separation, r.elements.total_mass, r.elements.mass_ratio, r.elements.eccentricity}; };
    for (long i = -3; i <= 3; ++i) for (long j = -3; j <= 3; ++j) for (double s : {-2.0, 0.0, 0.5, 3.0})
        c.each([&] (auto& o) { o << "elements " << i << " and " << j << " scale " << s; }, [&]
        {
            c.step(5); c.interesting(i != j); c.state(vf::hash(vf::cat(i, j, s)));
            auto x = all(mk(i)), y = all(mk(j)), p = all(mk(i) + mk(j)), m = all(mk(i) - mk(j)), k = all(mk(i) * s), z = all(mara::make_full_orbital_elements_with_zeros()), d = all(mara::diff_cm(mk(i), s));
            for (int n = 0; n < 10; ++n) { CHECK(p[n] == x[n] + y[n] && m[n] == x[n] - y[n] && k[n] == x[n] * s && z[n] == 0, "component ", n); CHECK(std::fabs(d[n] - (n == 2 ? x[4] * s : n == 3 ? x[5] * s : 0)) < 1e-13, "drift of component ", n, " is ", d[n]); }
        });
    // differences take the short way round
    for (double p : {-3.0, -1.0, 0.0, 2.0, 3.1}) for (double r : {-3.1, -0.5, 0.0, 1.0, 3.0}) for (double tau : {0.0, 1.0, 6.0}) for (double sig : {0.0, 0.5, 5.9}) for (double a : {0.5, 1.0, 4.0})
        c.each([&] (auto& o) { o << "difference of angles " << p << " and " << r << ", times " << tau << " and " << sig << " a=" << a; }, [&]
        {
            c.step(1); c.interesting(p != r); c.state(vf::hash(vf::cat(p, r, tau, sig, a)));
            auto x = mk(1), y = mk(2); y.elements.separation = a; y.elements.total_mass = 1; double P = mara::orbital_period(y.elements); x.pomega = p; y.pomega = r; x.tau = tau * P / 6.2; y.tau = sig * P / 6.2;
            auto d = mara::diff(x, y); auto v = all(d), X = all(x), Y = all(y);
            for (int n = 2; n < 10; ++n) CHECK(v[n] == Y[n] - X[n], "component ", n);
            CHECK(std::fabs(std::remainder(d.pomega - (r - p), 2 * M_PI)) < 1e-12 && std::fabs(d.pomega) <= M_PI + 1e-12, "angle difference ", d.pomega);
            CHECK(std::fabs(std::remainder(d.tau - (y.tau - x.tau), P)) < 1e-12 * P && std::fabs(d.tau) <= P * (0.5 + 1e-12), "time difference ", d.tau, " for period ", P);
        });
    // small kicks change the separation as the first-order formula says
    for (double q : {0.2, 1.0, 2.0}) for (double e : {0.0, 0.4}) for (double ph : {0.1, 0.35, 0.8}) for (int which = 0; which < 6; ++which) for (double h : {1e-4, -1e-4})
        c.each([&] (auto& o) { o << "kick " << h << " of quantity " << which << " q=" << q << " e=" << e << " phase " << ph; }, [&]
        {
            c.step(2); c.interesting(true); c.state(vf::hash(vf::cat(q, e, ph, which, h)));
            mara::orbital_elements_t el; el.mass_ratio = q; el.eccentricity = e; auto s = mara::compute_two_body_state(el, ph * 2 * M_PI), k = s;
            switch (which) { case 0: k.body1.mass += h; break; case 1: k.body2.mass += h; break; case 2: k.body1.velocity_x += h; break; case 3: k.body1.velocity_y += h; break; case 4: k.body2.velocity_x += h; break; case 5: k.body2.velocity_y += h; break; }
            auto a = [] (const mara::two_body_state_t& s) { return -0.5 * s.body1.mass * s.body2.mass / mara::total_energy(s); };
            double want = a(k) / a(s) - 1, have = mara::delta_a_over_a(k, s);
            CHECK(std::fabs(want - have) <= 3e-6, "relative change ", have, " instead of ", want);
        });
}
int main(int argc, char** argv) { return vf::main(argc, argv, {{"orbits", orbits}, {"recovery", full}, {"unbound", unbound}, {"arithmetic", arithmetic}}); }
