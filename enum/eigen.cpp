// C18: the characteristic decomposition diagonalises the flux.
#include "vf.hpp"
#include <tuple>
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "physics_iso2d.hpp"
#include "physics_euler.hpp"
using vf::ctx;
typedef long double ld;
typedef std::vector<double> vec;
using P = mara::euler::primitive_t;
typedef std::array<ld, 5> L5;

static P make(double d, double u, double v, double w, double p) { return P().with_mass_density(d).with_velocity_1(u).with_velocity_2(v).with_velocity_3(w).with_gas_pressure(p); }
static L5 flux_of(const L5& U, ld g)
{
    ld d = U[0], u = U[1] / d, p = (U[4] - 0.5L * (U[1] * U[1] + U[2] * U[2] + U[3] * U[3]) / d) * (g - 1);
    return {U[1], U[1] * u + p, U[2] * u, U[3] * u, (U[4] + p) * u};
}
// derivative of the flux, by differences of fourth order in extended precision
static void jacobian(const P& s, double g, ld J[5][5])
{
    L5 U; auto C = s.to_conserved_density(g); for (int i = 0; i < 5; ++i) U[i] = C[i].value;
    ld a = sqrtl(ld(g) * s.gas_pressure() / s.mass_density());
    for (int j = 0; j < 5; ++j)
    {
        ld h = 1e-4L * U[0] * (j == 0 ? 1 : j == 4 ? a * a : a);
        auto at = [&] (ld x) { auto V = U; V[j] += x; return flux_of(V, g); };
        auto f1 = at(h), f2 = at(-h), f3 = at(2 * h), f4 = at(-2 * h);
        for (int i = 0; i < 5; ++i) J[i][j] = (8 * (f1[i] - f2[i]) - (f3[i] - f4[i])) / (12 * h);
    }
}
static std::vector<P> states(ctx& c, bool slow)
{
    std::vector<P> r;
    auto V = c.thorough() ? vec{0, 1e-4, 0.3, -0.8, 2, -5} : vec{0, 0.3, -0.8, 4};
    for (double d : c.thorough() ? vec{1e-6, 0.1, 1, 30} : vec{0.1, 1, 30}) for (double t : c.thorough() ? vec{0.04, 1, 7, 50} : vec{0.2, 7}) for (double u : V) for (double v : V) for (double w : V) r.push_back(make(d, u, v, w, d * t));
    return r;
}
static void decomposition(ctx& c)
{
    auto S = states(c, false);
    for (double g : {1.1, 4./3, 1.4, 5./3, 2.0}) for (auto& s : S)
        c.each([&] (auto& o) { o << "gamma=" << g << " state (" << s[0] << ";" << s[1] << "," << s[2] << "," << s[3] << ";" << s[4] << ")"; }, [&]
        {
            c.state(vf::mix(vf::bits(s[0] + 3 * s[4]), vf::bits(s[1] + 5 * s[2] + 7 * s[3]))); c.interesting(s[1] || s[2] || s[3]); c.step(3);
            auto A = s.flux_jacobian(g); auto R = s.right_eigenvectors(g); auto L = s.left_eigenvectors(g); auto E = s.eigenvalues(g);
            ld J[5][5]; jacobian(s, g, J);
            double a = std::sqrt(s.sound_speed_squared(g)), q = std::sqrt(s.velocity_squared()) + a;
            // dimension of row i, column j in powers of velocity: mass 0, momentum 1, energy 2
            auto dim = [] (int i) { return i == 0 ? 0 : i == 4 ? 2 : 1; };
            auto unit = [&] (int i, int j) { return std::pow(q, 1 + dim(i) - dim(j)); };
            double mach = q / a;
            for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) CHECK(fabsl(A(i, j).value - J[i][j]) <= 1e-7L * mach * mach * unit(i, j), "derivative of flux ", i, " by variable ", j, " is ", A(i, j).value, " instead of ", double(J[i][j]));
            auto w = s.wavespeeds(mara::unit_vector_t::on_axis_1(), g);
            double lam[5] = {s[1] - a, s[1], s[1], s[1], s[1] + a};
            for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) CHECK(std::fabs(E(i, j).value - (i == j ? lam[i] : 0)) <= 1e-13 * q, "eigenvalue ", i, j, " is ", E(i, j).value);
            CHECK(vf::close(w.m.value, lam[0], 1e-13, 1e-13 * q) && vf::close(w.p.value, lam[4], 1e-13, 1e-13 * q), "wave speeds are not the outer eigenvalues");
            auto sys = s.eigensystem(g);
            for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j)
            {
                CHECK(std::get<0>(sys)(i, j).value == E(i, j).value && std::get<1>(sys)(i, j).value == R(i, j).value && std::get<2>(sys)(i, j).value == L(i, j).value, "eigensystem differs from its parts");
                ld lr = 0, rl = 0, ar = 0, la = 0;
                for (int k = 0; k < 5; ++k) { lr += ld(L(i, k).value) * R(k, j).value; rl += ld(R(i, k).value) * L(k, j).value; ar += J[i][k] * R(k, j).value; la += ld(L(i, k).value) * J[k][j]; }
                double m2 = mach * mach * mach;
                double un = std::pow(q, dim(i) - dim(j));
                CHECK(fabsl(rl - (i == j)) <= 1e-12L * m2 * (un + 1), "right times left eigenvectors is not one at ", i, j, ": ", double(rl));
                // rows of L and columns of R carry units of their own: compare relative to the sizes of the terms
                ld tl = 0, ta = 0, tb = 0; for (int k = 0; k < 5; ++k) { tl += fabsl(ld(L(i, k).value) * R(k, j).value); ta += fabsl(J[i][k] * R(k, j).value); tb += fabsl(ld(L(i, k).value) * J[k][j]); }
                CHECK(fabsl(lr - (i == j)) <= 1e-12L * (tl + 1) * mach, "left times right eigenvectors is not one at ", i, j, ": ", double(lr));
                CHECK(fabsl(ar - ld(lam[j]) * R(i, j).value) <= 1e-7L * mach * mach * (ta + fabsl(ld(lam[j]) * R(i, j).value)) + 1e-9L * unit(i, 0), "column ", j, " is not a right eigenvector (component ", i, ")");
                CHECK(fabsl(la - ld(lam[i]) * L(i, j).value) <= 1e-7L * mach * mach * (tb + fabsl(ld(lam[i]) * L(i, j).value)) + 1e-9L, "row ", i, " is not a left eigenvector (component ", j, ")");
            }
        });
}
static void roe(ctx& c)
{
    auto S = states(c, true);
    std::vector<P> T; for (size_t i = 0; i < S.size(); i += c.thorough() ? 5 : 3) T.push_back(S[i]);
    for (double g : {4./3, 5./3}) for (auto& l : T) for (auto& r : T)
        c.each([&] (auto& o) { o << "average of (" << l[0] << ";" << l[1] << "," << l[2] << "," << l[3] << ";" << l[4] << ") and (" << r[0] << ";" << r[1] << "," << r[2] << "," << r[3] << ";" << r[4] << ") gamma=" << g; }, [&]
        {
            c.interesting(&l != &r); c.step(); c.state(vf::mix(vf::bits(l[0] + l[1] + 3 * l[2] + 9 * l[3]), vf::bits(r[0] + r[1] + 3 * r[2] + 9 * r[3])));
            auto Q = mara::euler::roe_average(l, r), B = mara::euler::roe_average(r, l);
            for (int i = 0; i < 5; ++i) { CHECK(vf::close(Q[i], B[i], 1e-13, 0), "average is not symmetric"); CHECK(Q[i] >= std::min(l[i], r[i]) - 1e-13 * std::fabs(l[i]) && Q[i] <= std::max(l[i], r[i]) + 1e-13 * std::fabs(r[i]), "average outside of the states"); }
            auto A = Q.flux_jacobian(g);
            auto Ul = l.to_conserved_density(g), Ur = r.to_conserved_density(g);
            auto n = mara::unit_vector_t::on_axis_1();
            auto Fl = l.flux(n, g), Fr = r.flux(n, g);
            for (int i = 0; i < 4; ++i)
            {
                ld x = 0, t = 0; for (int j = 0; j < 5; ++j) { ld y = ld(A(i, j).value) * (ld(Ur[j].value) - Ul[j].value); x += y; t += fabsl(ld(A(i, j).value)) * (fabsl(ld(Ur[j].value)) + fabsl(ld(Ul[j].value))); }
                ld e = ld(Fr[i].value) - Fl[i].value;
                CHECK(fabsl(x - e) <= 1e-12L * (t + fabsl(ld(Fr[i].value)) + fabsl(ld(Fl[i].value))), "jump in flux ", i, " is ", double(e), " but the averaged derivative gives ", double(x));
            }
        });
    for (auto& s : S)
        c.each([&] (auto& o) { o << "average of a state with itself"; }, [&] { auto Q = mara::euler::roe_average(s, s); for (int i = 0; i < 5; ++i) CHECK(vf::close(Q[i], s[i], 1e-13, 0), "component ", i); });
    // isothermal gas
    using I = mara::iso2d::primitive_t;
    std::vector<I> W; for (double d : vec{1e-3, 1, 20}) for (double u : vec{0, 0.5, -3}) for (double v : vec{0, 2, -0.1}) W.push_back(I().with_sigma(d).with_velocity_x(u).with_velocity_y(v));
    for (auto& l : W) for (auto& r : W) for (double c2 : {0.01, 1.0})
        c.each([&] (auto& o) { o << "isothermal average of (" << l[0] << ";" << l[1] << "," << l[2] << ") and (" << r[0] << ";" << r[1] << "," << r[2] << ")"; }, [&]
        {
            c.interesting(); c.step();
            auto Q = mara::iso2d::roe_average(l, r), B = mara::iso2d::roe_average(r, l);
            for (int i = 0; i < 3; ++i) CHECK(vf::close(Q[i], B[i], 1e-13, 0), "average is not symmetric");
            ld u = Q.velocity_x(), v = Q.velocity_y(), d0 = ld(r[0]) - l[0], d1 = ld(r[0]) * r[1] - ld(l[0]) * l[1], d2 = ld(r[0]) * r[2] - ld(l[0]) * l[2];
            // rows of the derivative of the flux along x
            ld x[3] = {d1, (c2 - u * u) * d0 + 2 * u * d1, -u * v * d0 + v * d1 + u * d2};
            auto n = mara::unit_vector_t::on_axis_1(); auto Fl = l.flux(n, c2), Fr = r.flux(n, c2);
            ld e[3] = {ld(mara::get<0>(Fr).value) - mara::get<0>(Fl).value, ld(mara::get<1>(Fr).value) - mara::get<1>(Fl).value, ld(mara::get<2>(Fr).value) - mara::get<2>(Fl).value};
            for (int i = 0; i < 3; ++i) CHECK(fabsl(x[i] - e[i]) <= 1e-11L * (1 + l[0] + r[0]) * 20, "jump in flux ", i, " is ", double(e[i]), " but the averaged derivative gives ", double(x[i]));
        });
}
static void roe_energy(ctx& c)
{
    c.each([&] (auto& o) { o << "roe_average of (1;0.5,0,0;1) and (2;-0.3,0,0;3), gamma=1.4, energy"; }, [&]
    {
        double g = 1.4; auto l = make(1, 0.5, 0, 0, 1), r = make(2, -0.3, 0, 0, 3);
        auto A = mara::euler::roe_average(l, r).flux_jacobian(g); auto Ul = l.to_conserved_density(g), Ur = r.to_conserved_density(g);
        auto n = mara::unit_vector_t::on_axis_1(); double e = r.flux(n, g)[4].value - l.flux(n, g)[4].value, x = 0;
        for (int j = 0; j < 5; ++j) x += A(4, j).value * (Ur[j].value - Ul[j].value);
        CHECK(vf::close(x, e, 1e-12, 1e-12), "jump in the energy flux is ", e, " but the averaged derivative gives ", x);
    });
}
int main(int argc, char** argv) { return vf::main(argc, argv, {{"decomposition", decomposition}, {"roe-average", roe}, {"roe-energy", roe_energy}}); }
