// C14: rational numbers are exact, canonical and totally ordered.
#include "vf.hpp"
#include "core_rational.hpp"
#include <numeric>
using vf::ctx;
using Q = mara::rational_number_t;
typedef __int128 big;

struct ref { big n, d; };   // canonical, or d == 0 when undefined
static ref canon(big n, big d)
{
    if (d == 0) return {0, 0};
    if (d < 0) { n = -n; d = -d; }
    big a = n < 0 ? -n : n, b = d;
    while (b) { big t = a % b; a = b; b = t; }
    return {n / a, d / a};
}
static bool fits(const ref& r) { return r.d != 0 && r.n >= INT32_MIN && r.n <= INT32_MAX && r.d <= INT32_MAX; }
static ref of(const Q& q) { return {q.get_numerator(), q.get_denominator()}; }
static std::string str(const ref& r) { return std::to_string((long long) r.n) + "/" + std::to_string((long long) r.d); }
static void same(const Q& q, const ref& r, const char* what)
{
    CHECK(q.get_numerator() == r.n && q.get_denominator() == r.d, what, " gives ", mara::to_string(q), " instead of ", str(r));
    CHECK(mara::to_string(q) == std::to_string((long long) r.n) + " / " + std::to_string((long long) r.d), what, " prints ", mara::to_string(q));
}
template<typename F> static void result(F&& f, const ref& r, const char* what)
{
    if (fits(r)) { same(f(), r, what); return; }
    CHECK(vf::throws([&] { f(); }), what, " of an undefined or unrepresentable result is not refused");
}
static void pair_laws(const Q& a, const Q& b)
{
    ref x = of(a), y = of(b);
    result([&] { return a + b; }, canon(x.n * y.d + y.n * x.d, x.d * y.d), "sum");
    result([&] { return a - b; }, canon(x.n * y.d - y.n * x.d, x.d * y.d), "difference");
    result([&] { return a * b; }, canon(x.n * y.n, x.d * y.d), "product");
    result([&] { return a / b; }, canon(x.n * y.d, x.d * y.n), "quotient");
    big l = x.n * y.d, r = y.n * x.d;
    CHECK((a == b) == (l == r) && (a != b) == (l != r), "equality");
    CHECK((a < b) == (l < r) && (a > b) == (l > r), "order");
    CHECK((a <= b) == (l <= r) && (a >= b) == (l >= r), "weak order");
}
static void with_int(const Q& a, int k)
{
    ref x = of(a);
    result([&] { return a + k; }, canon(x.n + big(k) * x.d, x.d), "sum with an integer");
    result([&] { return k + a; }, canon(x.n + big(k) * x.d, x.d), "integer plus rational");
    result([&] { return a - k; }, canon(x.n - big(k) * x.d, x.d), "difference with an integer");
    if (fits(canon(-x.n, x.d))) result([&] { return k - a; }, canon(big(k) * x.d - x.n, x.d), "integer minus rational");
    result([&] { return a * k; }, canon(x.n * k, x.d), "product with an integer");
    result([&] { return a / k; }, canon(x.n, x.d * k), "quotient by an integer");
    result([&] { Q q = a; q += k; return q; }, canon(x.n + big(k) * x.d, x.d), "+=");
    result([&] { Q q = a; q -= k; return q; }, canon(x.n - big(k) * x.d, x.d), "-=");
    big r = big(k) * x.d;
    CHECK((a == k) == (x.n == r) && (a != k) == (x.n != r) && (a < k) == (x.n < r) && (a > k) == (x.n > r) && (a <= k) == (x.n <= r) && (a >= k) == (x.n >= r), "comparison with ", k);
}
static void single(const Q& a)
{
    ref x = of(a);
    CHECK(x.d > 0 && std::gcd((long long) x.n, (long long) x.d) == 1, "not canonical: ", mara::to_string(a));
    same(+a, x, "unary plus");
    result([&] { return -a; }, {-x.n, x.d}, "negation");
    CHECK(a.is_integral() == (x.d == 1), "is_integral");
    if (x.d == 1) CHECK(a.as_integral() == int(x.n), "as_integral"); else CHECK(vf::throws_as<std::logic_error>([&] { a.as_integral(); }), "as_integral of a fraction is not refused");
    double v = double(x.n) / double(x.d);
    CHECK(vf::close(a.as_double(), v, 1e-15, 0), "as_double");
    for (double y : {0.5, -3.0, 7.25}) CHECK(vf::close(a + y, v + y, 1e-15, 1e-15) && vf::close(a - y, v - y, 1e-15, 1e-15) && vf::close(a * y, v * y, 1e-15, 0) && vf::close(a / y, v / y, 1e-15, 0), "with a double");
}

static void construct(ctx& c, int hi)
{
    for (int n = -hi; n <= hi; ++n)
        c.each([&] (auto& o) { o << "numerator " << n << ", all denominators up to " << hi; }, [&]
        {
            for (int d = -hi; d <= hi; ++d)
            {
                c.step();
                if (d == 0) { CHECK(vf::throws_as<std::invalid_argument>([&] { Q(n, d); }) && vf::throws_as<std::invalid_argument>([&] { mara::make_rational(n, d); }), "zero denominator is not refused"); continue; }
                Q q(n, d);
                same(q, canon(n, d), "construction"); same(mara::make_rational(n, d), canon(n, d), "make_rational");
                single(q); c.interesting(q.get_denominator() != d);
                for (int k = -5; k <= 5; ++k) with_int(q, k);
                c.state(vf::hash(mara::to_string(q)));
            }
            same(Q(n), {n, 1}, "integer"); same(mara::make_rational(n), {n, 1}, "integer"); same(Q(), {0, 1}, "default");
        });
}
static void pairs(ctx& c, int hi)
{
    for (int n = -hi; n <= hi; ++n) for (int d = 1; d <= hi; ++d)
        c.each([&] (auto& o) { o << n << "/" << d << " with every number up to " << hi; }, [&]
        {
            Q a(n, d);
            for (int p = -hi; p <= hi; ++p) for (int q = -hi; q <= hi; ++q) if (q) { pair_laws(a, Q(p, q)); c.step(10); }
            c.interesting();
        });
}
// numbers near the ends of the range of the integer type, and with large common factors
static void extreme(ctx& c)
{
    std::vector<int> v = {0, 1, -1, 2, -2, 3, 7, 46340, 46341, -46341, 50000, 65535, 65536, -65536, 1 << 30, -(1 << 30), 1000000007, 715827882, INT32_MAX, -INT32_MAX, INT32_MAX - 1, INT32_MIN, INT32_MIN + 2};
    for (int n : v) for (int d : v)
        c.each([&] (auto& o) { o << n << "/" << d << " with the other extreme numbers"; }, [&]
        {
            auto r = canon(n, d);
            result([&] { return Q(n, d); }, r, "construction");
            if (! fits(r)) return;
            Q a(n, d);
            single(a);
            for (int k : v) { with_int(a, k); for (int m : v) if (fits(canon(k, m))) { pair_laws(a, Q(k, m)); c.step(10); } }
            c.interesting();
        });
}
// chains of operations, as in Runge-Kutta averages of an iteration number
static void chains(ctx& c, int depth)
{
    std::vector<Q> operand = {Q(1), Q(1, 2), Q(-1, 3), Q(3, 4), Q(0)};
    std::vector<int> ops;
    std::function<void(Q, ref, int)> go = [&] (Q q, ref r, int d)
    {
        same(q, r, "chain"); c.state(vf::hash(str(r)));
        if (d == 0) return;
        for (auto& x : operand)
            for (int op = 0; op < 4; ++op)
            {
                ref y = of(x);
                ref w = op == 0 ? canon(r.n * y.d + y.n * r.d, r.d * y.d) : op == 1 ? canon(r.n * y.d - y.n * r.d, r.d * y.d) : op == 2 ? canon(r.n * y.n, r.d * y.d) : canon(r.n * y.d, r.d * y.n);
                c.step();
                auto f = [&] { return op == 0 ? q + x : op == 1 ? q - x : op == 2 ? q * x : q / x; };
                if (! fits(w)) { CHECK(vf::throws(f), "undefined step is not refused"); continue; }
                go(f(), w, d - 1);
            }
    };
    for (int n = -3; n <= 3; ++n) for (int d = 1; d <= 4; ++d)
        c.each([&] (auto& o) { o << "all chains of " << depth << " operations from " << n << "/" << d; }, [&] { go(Q(n, d), canon(n, d), depth); c.interesting(); });
    for (int it = 0; it <= 300; ++it)
        c.each([&] (auto& o) { o << "Runge-Kutta average at iteration " << it; }, [&]
        {
            Q s0 = it, s1 = s0 + 1, s2 = s1 + 1, h = mara::make_rational(1, 2), third = mara::make_rational(1, 3);
            same(s0 * h + s2 * (mara::make_rational(1) - h), {it + 1, 1}, "second order average");
            Q t = s0 * mara::make_rational(3, 4) + s2 * mara::make_rational(1, 4);
            CHECK(t == Q(2 * it + 1, 2), "third order average");
            CHECK(s0 * third + (t + 1) * mara::make_rational(2, 3) == it + 1, "third order average");
        });
}
int main(int argc, char** argv)
{
    return vf::main(argc, argv, {
        {"construct", [] (ctx& c) { construct(c, c.pick(120, 400)); }},
        {"pairs", [] (ctx& c) { pairs(c, c.pick(12, 24)); }},
        {"extreme", extreme},
        {"chains", [] (ctx& c) { chains(c, c.pick(3, 4)); }},
    });
}
