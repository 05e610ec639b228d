// C22: roots of cubics and quartics, vertices of parabolas, shock indexes.
#include "vf.hpp"
#include <complex>
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "math_polynomial.hpp"
#include "post_shock_locator.hpp"
using vf::ctx;
typedef std::vector<double> vec;
typedef std::complex<double> cx;

static std::vector<double> expand(const std::vector<cx>& roots, double lead)
{
    std::vector<cx> p{1.0};
    for (auto r : roots) { p.push_back(0); for (size_t i = p.size() - 1; i > 0; --i) p[i] -= p[i - 1] * r; }
    vec c; for (auto& x : p) c.push_back(x.real() * lead); return c;
}
static double bulk(const std::vector<cx>& r) { double m = 0; for (auto x : r) m = std::max(m, std::abs(x)); return m; }
// the distance to the nearest other root, over the size of the largest
static double apart(const std::vector<cx>& r) { double m = 1e300; for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < i; ++j) m = std::min(m, std::abs(r[i] - r[j])); return m; }
static void match(vec have, vec want, double tol, const char* what)
{
    CHECK(have.size() == want.size(), what, ": ", have.size(), " real roots instead of ", want.size());
    std::sort(have.begin(), have.end()); std::sort(want.begin(), want.end());
    for (size_t i = 0; i < want.size(); ++i) CHECK(std::fabs(have[i] - want[i]) <= tol, what, ": root ", have[i], " instead of ", want[i]);
}
static vec lattice(ctx& c) { return c.thorough() ? vec{-100, -6, -3, -2, -1, -0.5, 0, 0.25, 1, 2, 4, 5, 64} : vec{-6, -2, -1, -0.5, 0, 1, 3, 5}; }
static vec leads(ctx& c) { return c.thorough() ? vec{1, -1, 2, -0.25, 1024, -1e-3} : vec{1, -2, 0.25}; }
static std::vector<cx> upper(ctx& c) { std::vector<cx> r; for (double x : c.thorough() ? vec{-5, -2, -0.5, 0, 1, 3} : vec{-2, 0, 1, 3}) for (double y : c.thorough() ? vec{0.25, 1, 2, 7} : vec{0.5, 1, 3}) r.push_back({x, y}); return r; }
static std::string str(const std::vector<cx>& r) { std::ostringstream o; for (auto x : r) { o << x.real(); if (x.imag()) o << (x.imag() > 0 ? "+" : "") << x.imag() << "i"; o << " "; } return o.str(); }

static void check_cubic(ctx& c, const std::vector<cx>& roots, double lead)
{
    c.each([&] (auto& o) { o << "cubic with roots " << str(roots) << "times " << lead; }, [&]
    {
        auto p = expand(roots, lead); auto r = mara::cubic_roots(p[0], p[1], p[2], p[3]);
        double size = bulk(roots), gap = apart(roots); bool complex = false; for (auto x : roots) complex |= x.imag() != 0;
        c.step(1); c.interesting(gap > 0); c.state(vf::hash(vf::cat(str(roots), lead)));
        CHECK(std::isfinite(r.x1) && std::isfinite(r.x2) && std::isfinite(r.x3), "not finite");
        CHECK(r.num_roots == 1 || r.num_roots == 3, "number of roots is ", r.num_roots);
        if (gap > 0)
        {
            vec want; for (auto x : roots) if (x.imag() == 0) want.push_back(x.real());
            vec have{r.x1}; if (r.num_roots == 3) { have.push_back(r.x2); have.push_back(r.x3); }
            match(have, want, 1e-9 * size, "cubic");
        }
        else
        {
            // repeated roots: whether they count as real is a matter of rounding, their place is not
            vec want; for (auto x : roots) want.push_back(x.real());
            match({r.x1, r.x2, r.x3}, want, 2e-5 * size, "cubic with repeated roots");
        }
    });
}
static void cubics(ctx& c)
{
    auto L = lattice(c);
    for (double lead : leads(c))
    {
        for (size_t i = 0; i < L.size(); ++i) for (size_t j = i; j < L.size(); ++j) for (size_t k = j; k < L.size(); ++k) check_cubic(c, {L[i], L[j], L[k]}, lead);
        for (double x : L) for (auto z : upper(c)) check_cubic(c, {x, z, std::conj(z)}, lead);
    }
}
static void check_quartic(ctx& c, const std::vector<cx>& roots, double lead)
{
    c.each([&] (auto& o) { o << "quartic with roots " << str(roots) << "times " << lead; }, [&]
    {
        auto p = expand(roots, lead); auto r = mara::quartic_roots(p[0], p[1], p[2], p[3], p[4]);
        double size = bulk(roots), gap = apart(roots);
        c.step(1); c.interesting(gap > 0); c.state(vf::hash(vf::cat("q", str(roots), lead)));
        for (double x : {r.x1, r.x2, r.x3, r.x4}) CHECK(std::isfinite(x), "not finite");
        if (gap > 0)
        {
            vec want, have, re; for (auto x : roots) if (x.imag() == 0) want.push_back(x.real()); else re.push_back(x.real());
            if (r.pair_1_is_real) { have.push_back(r.x1); have.push_back(r.x2); }
            if (r.pair_2_is_real) { have.push_back(r.x3); have.push_back(r.x4); }
            match(have, want, 1e-6 * size, "quartic");
            vec cre; if (!r.pair_1_is_real) { cre.push_back(r.x1); cre.push_back(r.x2); } if (!r.pair_2_is_real) { cre.push_back(r.x3); cre.push_back(r.x4); }
            match(cre, re, 1e-6 * size, "real part of complex pairs");
        }
        else
        {
            vec want; for (auto x : roots) want.push_back(x.real());
            match({r.x1, r.x2, r.x3, r.x4}, want, 2e-3 * size, "quartic with repeated roots");
        }
    });
}
static void quartics(ctx& c)
{
    auto L = lattice(c); auto U = upper(c);
    for (double lead : leads(c))
    {
        for (size_t i = 0; i < L.size(); ++i) for (size_t j = i; j < L.size(); ++j) for (size_t k = j; k < L.size(); ++k) for (size_t l = k; l < L.size(); ++l) check_quartic(c, {L[i], L[j], L[k], L[l]}, lead);
        for (size_t i = 0; i < L.size(); ++i) for (size_t j = i; j < L.size(); ++j) for (auto z : U) check_quartic(c, {L[i], L[j], z, std::conj(z)}, lead);
        for (size_t i = 0; i < U.size(); ++i) for (size_t j = i; j < U.size(); ++j) check_quartic(c, {U[i], std::conj(U[i]), U[j], std::conj(U[j])}, lead);
    }
}
static void parabolas(ctx& c)
{
    vec X = c.thorough() ? vec{-8, -3, -1, 0, 0.5, 2, 7} : vec{-3, -1, 0, 0.5, 4};
    vec A = c.thorough() ? vec{-4, -1, 0.125, 1, 3} : vec{-1, 0.5, 3};
    for (double a : A) for (double x0 : X) for (double y0 : X) for (double x1 : X) for (double x2 : X) for (double x3 : X)
        if (x1 != x2 && x2 != x3 && x1 != x3)
            c.each([&] (auto& o) { o << "parabola " << a << "(x-" << x0 << ")^2+" << y0 << " through x=" << x1 << "," << x2 << "," << x3; }, [&]
            {
                c.step(1); c.interesting(x0 != x1 && x0 != x2 && x0 != x3); c.state(vf::hash(vf::cat(a, x0, y0, x1, x2, x3)));
                auto f = [&] (double x) { return a * (x - x0) * (x - x0) + y0; };
                auto v = mara::parabola_vertex(x1, x2, x3, f(x1), f(x2), f(x3));
                CHECK(std::fabs(v.first - x0) <= 1e-10 && std::fabs(v.second - y0) <= 1e-9, "vertex (", v.first, ",", v.second, ")");
            });
}

// ---------------------------------------------------------------------- shocks
struct gas { double s = 0, p = 1; double specific_entropy(double g) const { return s + g; } double gas_pressure() const { return p; } };
static void shocks(ctx& c)
{
    int N = c.thorough() ? 8 : 6;
    for (int n = 2; n <= N; ++n) { long total = 1; for (int i = 0; i < n; ++i) total *= 4; for (long code = 0; code < total; ++code)
        c.each([&] (auto& o) { o << "profile of " << n << " zones, code " << code; }, [&]
        {
            auto A = nd::make_unique_array<gas>(nd::make_shape(n)); auto Q = nd::make_unique_array<double>(nd::make_shape(n));
            static const double S[4] = {0, 1, 2.5, -4}, P[4] = {1, 2.1, 0.13, 0.47};
            vec s(n), p(n); long k = code; for (int i = 0; i < n; ++i) { s[i] = S[k % 4]; p[i] = P[k % 4]; k /= 4; A(i) = gas{s[i], p[i]}; Q(i) = p[i]; }
            auto prim = std::move(A).shared(); auto q = std::move(Q).shared();
            c.interesting(s.front() != s.back()); c.state(vf::mix(code, n)); c.step(1 + 2 * n);
            auto at = mara::find_shock_index(prim, 1.0)[0];
            int want = 0; for (int i = 1; i < n - 1; ++i) if (s[i + 1] - s[i] < s[want + 1] - s[want]) want = i;
            CHECK(int(at) == want, "steepest drop of entropy is at ", want, ", reported ", at);
            for (int i = 0; i < n; ++i)
            {
                size_t m = i; while (m > 0 && p[m - 1] > p[m]) --m;
                CHECK(mara::find_index_of_maximum_behind(q, i) == m && mara::find_index_of_maximum_pressure_behind(prim, i) == m, "maximum behind ", i, " is at ", m, ", reported ", mara::find_index_of_maximum_behind(q, i));
                // ahead: the first index at which the logarithmic slope behind has fallen below half of the one before
                auto d = [&] (long j) { return std::log(p[j + 1]) - std::log(p[j]); };
                size_t w = 0; for (long j = i; ; ++j) { if (j < 2 || j - 1 > n - 2) { w = 0; break; } if (!(d(j - 1) < 0.5 * d(j - 2))) { w = j; break; } }
                auto h = mara::find_index_of_pressure_plateau_ahead(prim, i);
                CHECK(h == w, "plateau ahead of ", i, " is at ", w, ", reported ", h);
            }
        }); }
}
int main(int argc, char** argv) { return vf::main(argc, argv, {{"cubics", cubics}, {"quartics", quartics}, {"parabolas", parabolas}, {"shocks", shocks}}); }
