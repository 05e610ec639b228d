// C19: slope-limited reconstruction creates no new extrema.
#include "vf.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "physics_iso2d.hpp"
#include "physics_euler.hpp"
#include "math_interpolation.hpp"
using vf::ctx;
typedef std::vector<double> vec;

static double minmod3(double a, double b, double c) { if (a > 0 && b > 0 && c > 0) return std::min({a, b, c}); if (a < 0 && b < 0 && c < 0) return std::max({a, b, c}); return 0; }
static double expect(double l, double m, double r, double th) { return minmod3(th * (m - l), 0.5 * (r - l), th * (r - m)); }
static double slope(double l, double m, double r, double th) { return mara::plm_gradient(l, m, r, th); }
static const vec thetas{1, 1.25, 1.5, 1.8, 2};

static vec values(ctx& c)
{
    vec v; for (int i = -8; i <= 8; ++i) v.push_back(i / 4.0);
    for (double x : {1e-300, -1e-300, 1e-16, 1e-8, -1e-8, 100.0, -100.0, 1e10, -1e10, 1e150, -1e150}) v.push_back(x);
    if (c.thorough()) for (int i = 0; i < 24; ++i) { v.push_back(std::ldexp(1.0 + i / 7.0, i - 12)); v.push_back(-std::ldexp(1.0 + i / 5.0, 9 - i)); }
    return v;
}
static void triples(ctx& c)
{
    auto V = values(c);
    for (double th : thetas) for (double l : V) for (double m : V)
        c.each([&] (auto& o) { o << "theta=" << th << " left=" << l << " middle=" << m << ", every right value"; }, [&]
        {
            for (double r : V)
            {
                c.step(); c.state(vf::mix(vf::bits(l), vf::mix(vf::bits(m), vf::bits(r)))); 
                double s = slope(l, m, r, th), e = expect(l, m, r, th);
                CHECK(std::isfinite(s), "slope of (", l, ",", m, ",", r, ") is ", s);
                CHECK(vf::close(s, e, 1e-13, 0), "slope of (", l, ",", m, ",", r, ") is ", s, " instead of ", e);
                if (e != 0) c.interesting();
                if ((m >= l && m >= r) || (m <= l && m <= r)) CHECK(s == 0, "slope ", s, " at the extremum (", l, ",", m, ",", r, ")");
                CHECK(s * ((r > l) - (r < l)) >= 0, "slope ", s, " against the data (", l, ",", m, ",", r, ")");
                double t = 1e-14 * std::max({std::fabs(l), std::fabs(m), std::fabs(r)});
                for (double k : {-0.5, 0.5}) { double y = m + k * s; CHECK(y >= std::min({l, m, r}) - t && y <= std::max({l, m, r}) + t, "interface value ", y, " outside of (", l, ",", m, ",", r, ")"); double b = (k > 0) == (0 < 1) ? r : l; CHECK(y >= std::min(m, b) - t && y <= std::max(m, b) + t, "interface value ", y, " not between ", m, " and ", b); }
                CHECK(slope(r, m, l, th) == -s, "mirrored data");
                CHECK(slope(-l, -m, -r, th) == -s, "negated data");
                if (std::fabs(s) > 1e-290) CHECK(slope(l * 4, m * 4, r * 4, th) == 4 * s, "scaled data");
            }
        });
}
// linear data have their own slope
static void linear(ctx& c)
{
    for (double th : thetas) for (int a = -20; a <= 20; ++a) for (int b = -20; b <= 20; ++b)
        c.each([&] (auto& o) { o << "theta=" << th << " linear data " << a << " + " << b << " x"; }, [&] { c.step(); c.interesting(b); c.state(vf::mix(a + 100, b + 100)); CHECK(slope(a - b, a, a + b, th) == b, "slope ", slope(a - b, a, a + b, th)); });
}
template<typename T> static double val(const T& x) { if constexpr (std::is_arithmetic<T>::value) return x; else return x.value; }

// records: every member has the slope of its own values
static void records(ctx& c)
{
    vec V{-2, -1, 0, 0.5, 3};
    if (c.thorough()) V = {-4, -2, -1, 0, 0.5, 3, 10};
    for (double th : {1.0, 1.5, 2.0}) for (double l0 : V) for (double m0 : V) for (double r0 : V) for (double l1 : V) for (double m1 : V) for (double r1 : V)
        c.each([&] (auto& o) { o << "theta=" << th << " records (" << l0 << "," << l1 << ") (" << m0 << "," << m1 << ") (" << r0 << "," << r1 << ")"; }, [&]
        {
            double e0 = expect(l0, m0, r0, th), e1 = expect(l1, m1, r1, th), e2 = expect(l0 + l1, m0 + m1, r0 + r1, th);
            c.step(5); c.interesting(e0 != e1);
            auto s = mara::plm_gradient(mara::make_sequence(l0, l1, l0 + l1), mara::make_sequence(m0, m1, m0 + m1), mara::make_sequence(r0, r1, r0 + r1), th);
            CHECK(s[0] == e0 && s[1] == e1 && vf::close(s[2], e2, 1e-13, 0), "sequence");
            auto d = mara::plm_gradient(mara::make_length(l0), mara::make_length(m0), mara::make_length(r0), th); CHECK(d.value == e0, "dimensional value");
            auto q = mara::plm_gradient(mara::make_sequence(mara::make_mass(l0), mara::make_mass(l1)), mara::make_sequence(mara::make_mass(m0), mara::make_mass(m1)), mara::make_sequence(mara::make_mass(r0), mara::make_mass(r1)), th); CHECK(q[0].value == e0 && q[1].value == e1, "sequence of dimensional values");
            auto t = mara::plm_gradient(mara::make_arithmetic_tuple(l0, mara::make_length(l1), mara::make_mass(l0 + l1)), mara::make_arithmetic_tuple(m0, mara::make_length(m1), mara::make_mass(m0 + m1)), mara::make_arithmetic_tuple(r0, mara::make_length(r1), mara::make_mass(r0 + r1)), th);
            CHECK(mara::get<0>(t) == e0 && mara::get<1>(t).value == e1 && vf::close(mara::get<2>(t).value, e2, 1e-13, 0), "tuple");
            using I = mara::iso2d::primitive_t;
            auto p = [] (double a, double b) { return I().with_sigma(a).with_velocity_x(b).with_velocity_y(a + b); };
            I g = mara::plm_gradient(p(l0, l1), p(m0, m1), p(r0, r1), th); CHECK(g.sigma() == e0 && g.velocity_x() == e1 && vf::close(g.velocity_y(), e2, 1e-13, 0), "isothermal state");
            using E = mara::euler::primitive_t;
            auto h = [] (double a, double b) { return E().with_mass_density(a).with_velocity_1(b).with_velocity_3(a + b).with_gas_pressure(-b); };
            E f = mara::plm_gradient(h(l0, l1), h(m0, m1), h(r0, r1), th); CHECK(f.mass_density() == e0 && f.velocity_1() == e1 && f.velocity_2() == 0 && vf::close(f.velocity_3(), e2, 1e-13, 0) && f.gas_pressure() == -e1, "adiabatic state");
        });
}
// whole arrays, along either axis: slopes of each triple of neighbours, no new extrema at the interfaces
static void arrays(ctx& c)
{
    int K = c.pick(4, 5), N = c.pick(5, 6);
    vec A{0, 1, 3, -2, 0.25};
    for (int axis = 0; axis < 2; ++axis) for (double th : {1.0, 1.5, 2.0})
    {
        long total = 1; for (int i = 0; i < N; ++i) total *= K;
        for (long code = 0; code < total; ++code)
            c.each([&] (auto& o) { o << "array " << code << " in base " << K << " length " << N << " axis " << axis << " theta=" << th; }, [&]
            {
                vec y; for (long i = 0, k = code; i < N; ++i, k /= K) y.push_back(A[k % K]);
                c.step(); c.state(vf::mix(code, N)); c.interesting();
                auto shape = axis == 0 ? nd::make_shape(N, 2) : nd::make_shape(2, N);
                auto arr = nd::make_array([&] (auto i) { return i[1 - axis] == 0 ? y[i[axis]] : -2 * y[i[axis]]; }, shape);
                auto g = arr | nd::zip_adjacent3_on_axis(axis) | nd::apply([th] (auto a, auto b, auto d) { return mara::plm_gradient(a, b, d, th); }) | nd::to_shared();
                CHECK(g.shape(axis) == std::size_t(N - 2) && g.shape(1 - axis) == 2, "shape of the slopes");
                for (int i = 0; i < N - 2; ++i) for (int j = 0; j < 2; ++j)
                {
                    double s = axis == 0 ? g(i, j) : g(j, i), k = j ? -2 : 1, e = expect(k * y[i], k * y[i + 1], k * y[i + 2], th);
                    CHECK(s == e, "slope ", i, ",", j, " is ", s, " instead of ", e);
                    for (double h : {-0.5, 0.5}) { double v = k * y[i + 1] + h * s, b = k * (h < 0 ? y[i] : y[i + 2]); CHECK(v >= std::min(k * y[i + 1], b) - 1e-14 && v <= std::max(k * y[i + 1], b) + 1e-14, "interface value is a new extremum"); }
                }
            });
    }
}
int main(int argc, char** argv) { return vf::main(argc, argv, {{"triples", triples}, {"linear", linear}, {"records", records}, {"arrays", arrays}}); }
