// C24: tuple, matrix, sequence and unit arithmetic follow their algebra.
#include "vf.hpp"
#include <tuple>
#include "core_sequence.hpp"
#include "core_tuple.hpp"
#include "core_dimensional.hpp"
#include "core_matrix.hpp"
#include "core_geometric.hpp"
using vf::ctx;
template<std::size_t N, typename T=int> using seq = mara::arithmetic_sequence_t<T, N>;

template<std::size_t N, typename T, typename F> static void expect(const seq<N, T>& s, F&& f, const char* what)
{
    CHECK(s.size() == N, what, ": size");
    for (std::size_t i = 0; i < N; ++i) CHECK(s[i] == f(i), what, ": element ", i, " is ", s[i], " instead of ", f(i));
}
template<std::size_t N> static seq<N> decode(long code, const std::vector<int>& A) { seq<N> s{}; for (std::size_t i = 0; i < N; ++i) { s[i] = A[code % A.size()]; code /= A.size(); } return s; }
template<std::size_t N> static long count(const std::vector<int>& A) { long n = 1; for (std::size_t i = 0; i < N; ++i) n *= A.size(); return n; }
template<typename S> static std::string str(const S& s) { std::string r; for (auto x : s) r += vf::cat(r.empty() ? "" : ",", x); return r; }

template<std::size_t N> static void single(ctx& c, const std::vector<int>& A)
{
    for (long code = 0; code < count<N>(A); ++code)
        c.each([&] (auto& o) { o << "sequence (" << str(decode<N>(code, A)) << ")"; }, [&]
        {
            auto s = decode<N>(code, A); const auto& k = s; auto old = s;
            c.state(vf::mix(code, N)); c.interesting(N > 1); c.step(20);
            std::vector<int> v(s.begin(), s.end()); CHECK(v.size() == N && s.end() - s.begin() == long(N), "iteration");
            for (std::size_t i = 0; i < N; ++i) CHECK(v[i] == s[i] && s.at(i) == v[i] && k.at(i) == v[i] && k.data()[i] == v[i] && s.data()[i] == v[i], "access ", i);
            for (std::size_t i : {N, N + 1, std::size_t(-1)}) CHECK(vf::throws([&] { s.at(i); }) && vf::throws([&] { k.at(i); }), "access beyond the end is not refused");
            int sum = 0; bool all = true, any = false; for (int x : v) { sum += x; all = all && x; any = any || x; }
            CHECK(s.sum() == sum && s.all() == all && s.any() == any, "sum, all, any");
            CHECK(s.min() == *std::min_element(v.begin(), v.end()) && s.max() == *std::max_element(v.begin(), v.end()), "min, max");
            CHECK(s.head() == v.front() && s.last() == v.back(), "head, last");
            expect<N>(s.reverse(), [&] (auto i) { return v[N - 1 - i]; }, "reverse");
            expect<N>(s.map([] (int x) { return 3 * x + 1; }), [&] (auto i) { return 3 * v[i] + 1; }, "map");
            expect<N, double>(s.map([] (int x) { return x * 0.5; }), [&] (auto i) { return v[i] * 0.5; }, "map to another type");
            for (std::size_t j = 0; j < N + 2; ++j)
            {
                expect<N>(s.set(j, 77), [&] (auto i) { return i == j ? 77 : v[i]; }, "set");
                expect<N>(s.update(j, [] (int x) { return x - 50; }), [&] (auto i) { return i == j ? v[i] - 50 : v[i]; }, "update");
            }
            expect<N + 1>(s.append(9), [&] (auto i) { return i == N ? 9 : v[i]; }, "append");
            expect<N + 1>(s.prepend(9), [&] (auto i) { return i == 0 ? 9 : v[i - 1]; }, "prepend");
            expect<N + 2>(s.concat(mara::make_sequence(5, 6)), [&] (auto i) { return i < N ? v[i] : i == N ? 5 : 6; }, "concat");
            if constexpr (N > 1) { expect<N - 1>(s.init(), [&] (auto i) { return v[i]; }, "init"); expect<N - 1>(s.tail(), [&] (auto i) { return v[i + 1]; }, "tail"); }
            expect<N>(-s, [&] (auto i) { return -v[i]; }, "negation"); expect<N>(+s, [&] (auto i) { return v[i]; }, "unary plus");
            for (int x : {-3, 2})
            {
                expect<N>(s + x, [&] (auto i) { return v[i] + x; }, "plus number"); expect<N>(s - x, [&] (auto i) { return v[i] - x; }, "minus number");
                expect<N>(s * x, [&] (auto i) { return v[i] * x; }, "times number"); expect<N>(s / x, [&] (auto i) { return v[i] / x; }, "over number");
                expect<N, double>(s * 0.5, [&] (auto i) { return v[i] * 0.5; }, "times a number of another type");
                expect<N, bool>(s == x, [&] (auto i) { return v[i] == x; }, "== number"); expect<N, bool>(s != x, [&] (auto i) { return v[i] != x; }, "!= number");
                expect<N, bool>(s < x, [&] (auto i) { return v[i] < x; }, "< number"); expect<N, bool>(s > x, [&] (auto i) { return v[i] > x; }, "> number");
                expect<N, bool>(s <= x, [&] (auto i) { return v[i] <= x; }, "<= number"); expect<N, bool>(s >= x, [&] (auto i) { return v[i] >= x; }, ">= number");
                expect<N, bool>(s && x, [&] (auto i) { return v[i] && x; }, "&& number"); expect<N, bool>(s || 0, [&] (auto i) { return v[i] != 0; }, "|| number");
            }
            std::string t = "( "; for (int x : v) t += std::to_string(x) + " "; CHECK(mara::to_string(s) == t + ")", "to_string ", mara::to_string(s));
            expect<N, std::size_t>(mara::iota<N>(), [] (auto i) { return i; }, "iota");
            auto f = mara::iota<N>().map([] (std::size_t i) { return std::function<int(int)>([i] (int x) { return int(i) * 10 + x; }); });
            expect<N>(f.apply_to(s), [&] (auto i) { return int(i) * 10 + v[i]; }, "apply_to");
            expect<N>(s, [&] (auto i) { return old[i]; }, "an operation changed its operand");
        });
}
template<std::size_t N> static void pairs(ctx& c, const std::vector<int>& A)
{
    for (long x = 0; x < count<N>(A); ++x) for (long y = 0; y < count<N>(A); ++y)
        c.each([&] (auto& o) { o << "sequences (" << str(decode<N>(x, A)) << ") and (" << str(decode<N>(y, A)) << ")"; }, [&]
        {
            auto a = decode<N>(x, A), b = decode<N>(y, A); c.state(vf::mix(x, vf::mix(y, N))); c.interesting(N > 1 && x != y); c.step(14);
            auto d = b.map([] (int k) { return k * 0.5; });
            expect<N>(a + b, [&] (auto i) { return a[i] + b[i]; }, "sum"); expect<N>(a - b, [&] (auto i) { return a[i] - b[i]; }, "difference"); expect<N>(a * b, [&] (auto i) { return a[i] * b[i]; }, "product");
            expect<N, double>(a + d, [&] (auto i) { return a[i] + d[i]; }, "mixed sum"); expect<N, double>(d - a, [&] (auto i) { return d[i] - a[i]; }, "mixed difference"); expect<N, double>(a * d, [&] (auto i) { return a[i] * d[i]; }, "mixed product");
            if ((b != 0).all()) { expect<N>(a / b, [&] (auto i) { return a[i] / b[i]; }, "quotient"); expect<N, double>(a / d, [&] (auto i) { return a[i] / d[i]; }, "mixed quotient"); }
            expect<N, bool>(a == b, [&] (auto i) { return a[i] == b[i]; }, "=="); expect<N, bool>(a != b, [&] (auto i) { return a[i] != b[i]; }, "!=");
            expect<N, bool>(a < b, [&] (auto i) { return a[i] < b[i]; }, "<"); expect<N, bool>(a > b, [&] (auto i) { return a[i] > b[i]; }, ">"); expect<N, bool>(a <= b, [&] (auto i) { return a[i] <= b[i]; }, "<="); expect<N, bool>(a >= b, [&] (auto i) { return a[i] >= b[i]; }, ">=");
            expect<N, bool>(a && b, [&] (auto i) { return a[i] && b[i]; }, "&&"); expect<N, bool>(a || b, [&] (auto i) { return a[i] || b[i]; }, "||");
            CHECK((a * b).sum() == (b * a).sum() && ((a + b) * b).sum() == (a * b).sum() + (b * b).sum(), "scalar product");
            expect<N>(mara::lift([] (int p, int q) { return 5 * p - q; })(a, b), [&] (auto i) { return 5 * a[i] - b[i]; }, "lift");
            auto t = mara::make_sequence(a, b, a + b).transpose();
            CHECK(t.size() == N, "transpose size"); for (std::size_t i = 0; i < N; ++i) CHECK(t[i].size() == 3 && t[i][0] == a[i] && t[i][1] == b[i] && t[i][2] == a[i] + b[i], "transpose");
            auto z = t.transpose(); for (std::size_t i = 0; i < N; ++i) CHECK(z[0][i] == a[i] && z[1][i] == b[i], "transpose twice");
        });
}
static void sequences(ctx& c)
{
    std::vector<int> A{-2, 0, 1, 3}, B{-2, 0, 3}, Z{0, 1};
    single<1>(c, A); single<2>(c, A); single<3>(c, A); single<4>(c, A); single<5>(c, A); single<6>(c, B);
    if (c.thorough()) { single<7>(c, B); single<8>(c, B); }
    pairs<1>(c, A); pairs<2>(c, A); pairs<3>(c, c.thorough() ? A : B); pairs<4>(c, c.thorough() ? B : Z); pairs<5>(c, Z);
}

// ------------------------------------------------------- derived sequences, tuples
struct rec3 : mara::derivable_sequence_t<double, 3, rec3> {};
struct tup3 : mara::derivable_tuple_t<tup3, int, double, mara::unit_length<double>> {};
static tup3 mk(int a, double b, double l) { return tup3{{mara::make_arithmetic_tuple(a, b, mara::make_length(l))}}; }
template<typename T> static void tup(const T& t, int a, double b, double l, const char* what) { CHECK(mara::get<0>(t) == a && mara::get<1>(t) == b && mara::get<2>(t).value == l, what, " gives (", mara::get<0>(t), ",", mara::get<1>(t), ",", mara::get<2>(t).value, ")"); }
static void records(ctx& c)
{
    std::vector<int> A{-2, 0, 1, 3}; if (c.thorough()) A = {-2, -1, 0, 1, 3, 5};
    for (int a0 : A) for (int a1 : A) for (int a2 : A) for (int b0 : A) for (int b1 : A) for (int b2 : A)
        c.each([&] (auto& o) { o << "records (" << a0 << "," << a1 << "," << a2 << ") and (" << b0 << "," << b1 << "," << b2 << ")"; }, [&]
        {
            c.step(16); c.interesting(a0 != b0); c.state(vf::hash(vf::cat(a0, a1, a2, b0, b1, b2)));
            rec3 a{{{double(a0), double(a1), double(a2)}}}, b{{{double(b0), double(b1), double(b2)}}};
            auto is = [] (const rec3& r, double x, double y, double z) { return r[0] == x && r[1] == y && r[2] == z && r.size() == 3 && r.at(1) == y && r.begin()[2] == z && r.end() - r.begin() == 3; };
            bool eq = a0 == b0 && a1 == b1 && a2 == b2;
            CHECK((a == b) == eq && (a != b) == !eq, "equality of records");
            CHECK(is(a + b, a0 + b0, a1 + b1, a2 + b2) && is(a - b, a0 - b0, a1 - b1, a2 - b2) && is(a * 2.5, a0 * 2.5, a1 * 2.5, a2 * 2.5) && is(a / 4.0, a0 / 4.0, a1 / 4.0, a2 / 4.0) && is(-a, -a0, -a1, -a2) && is(+a, a0, a1, a2), "arithmetic of records");
            CHECK(vf::throws([&] { a.at(3); }), "access beyond the end is not refused");
            auto t = mara::make_arithmetic_tuple(a0, a1 * 0.5, mara::make_length(double(a2))), u = mara::make_arithmetic_tuple(b0, b1 * 0.5, mara::make_length(double(b2)));
            tup(t + u, a0 + b0, (a1 + b1) * 0.5, a2 + b2, "sum"); tup(t - u, a0 - b0, (a1 - b1) * 0.5, a2 - b2, "difference"); tup(-t, -a0, -a1 * 0.5, -a2, "negation");
            auto p = t * u; CHECK(mara::get<0>(p) == a0 * b0 && mara::get<1>(p) == a1 * b1 * 0.25 && mara::get<2>(p).value == a2 * b2 && mara::get<2>(p).dimensions() == std::make_tuple(2, 0, 0), "product of tuples");
            if (b0 && b1 && b2) { auto q = t / u; CHECK(mara::get<0>(q) == a0 / b0 && mara::get<1>(q) == double(a1) / b1 && mara::get<2>(q) == double(a2) / b2, "quotient of tuples"); }
            auto s = t * 3.0; CHECK(mara::get<0>(s) == a0 * 3.0 && mara::get<1>(s) == a1 * 1.5 && mara::get<2>(s).value == a2 * 3.0, "scaled tuple");
            auto h = t / 2.0; CHECK(mara::get<0>(h) == a0 / 2.0 && mara::get<1>(h) == a1 / 4.0 && mara::get<2>(h).value == a2 / 2.0, "divided tuple");
            auto e = t == u; CHECK(mara::get<0>(e) == (a0 == b0) && mara::get<1>(e) == (a1 == b1) && mara::get<2>(e) == (a2 == b2), "element-wise equality of tuples");
            auto n = t != u; CHECK(mara::get<0>(n) == (a0 != b0) && mara::get<1>(n) == (a1 != b1) && mara::get<2>(n) == (a2 != b2), "element-wise inequality of tuples");
            auto l = t < u; CHECK(mara::get<0>(l) == (a0 < b0) && mara::get<1>(l) == (a1 < b1) && mara::get<2>(l) == (a2 < b2), "element-wise order of tuples");
            auto g = t >= u; CHECK(mara::get<0>(g) == (a0 >= b0) && mara::get<1>(g) == (a1 >= b1) && mara::get<2>(g) == (a2 >= b2), "element-wise order of tuples");
            auto le = t <= u; CHECK(mara::get<0>(le) == (a0 <= b0) && mara::get<1>(le) == (a1 <= b1) && mara::get<2>(le) == (a2 <= b2), "element-wise order of tuples");
            auto gt = t > u; CHECK(mara::get<0>(gt) == (a0 > b0) && mara::get<1>(gt) == (a1 > b1) && mara::get<2>(gt) == (a2 > b2), "element-wise order of tuples");
            tup(t.template set<0>(7), 7, a1 * 0.5, a2, "set<0>"); tup(t.template set<1>(7.5), a0, 7.5, a2, "set<1>"); tup(t.template set<2>(8.0), a0, a1 * 0.5, 8.0, "set<2>"); tup(t, a0, a1 * 0.5, a2, "set on the operand");
            tup(t.map([] (auto x) { return x + x; }), 2 * a0, a1, 2 * a2, "map");
            auto w = mara::make_arithmetic_tuple(a0, a1 * 0.5, b0).to_sequence(); CHECK(w.size() == 3 && w[0] == a0 && w[1] == a1 * 0.5 && w[2] == b0, "to_sequence");
            auto x = mk(a0, a1, a2), y = mk(b0, b1, b2);
            CHECK((x == y) == eq && (x != y) == !eq, "equality of derived tuples");
            tup((x + y).__impl, a0 + b0, a1 + b1, a2 + b2, "sum of derived tuples"); tup((x - y).__impl, a0 - b0, a1 - b1, a2 - b2, "difference of derived tuples"); tup((-x).__impl, -a0, -a1, -a2, "negated derived tuple");
        });
}

// -------------------------------------------------------------------- matrices
template<std::size_t R, std::size_t C> static mara::matrix_t<int, R, C> mat(long code, const std::vector<int>& A) { mara::matrix_t<int, R, C> m{}; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) { m(i, j) = A[code % A.size()]; code /= A.size(); } return m; }
template<std::size_t R, std::size_t K, std::size_t C> static void products(ctx& c, const std::vector<int>& A)
{
    for (long x = 0; x < count<R * K>(A); ++x) for (long y = 0; y < count<K * C>(A); ++y)
        c.each([&] (auto& o) { o << R << "x" << K << " matrix " << x << " times " << K << "x" << C << " matrix " << y << " over " << A.size() << " values"; }, [&]
        {
            c.step(6); c.interesting(K > 1); c.state(vf::mix(vf::mix(x, y), R * 100 + K * 10 + C));
            auto a = mat<R, K>(x, A); auto b = mat<K, C>(y, A);
            auto p = a * b, q = mara::matrix_product(a, b);
            for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) { int s = 0; for (std::size_t k = 0; k < K; ++k) s += a(i, k) * b(k, j); CHECK(p(i, j) == s && q(i, j) == s, "product element ", i, j, " is ", p(i, j), " instead of ", s); }
            auto id = mara::identity_matrix<int, K>(); CHECK(a * id == a && id * b == b && !(a * id != a), "identity");
            auto z = mara::zero_matrix<int, K, C>(); CHECK(a * z == (mara::zero_matrix<int, R, C>()), "zero");
            CHECK(a * (b + b) == p + p && a * (b - b) == p - p && (a + a) * b == p * 2, "distributivity");
            auto h = p * 0.5; auto d = (p * 6) / 3; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) CHECK(h(i, j) == 0.5 * p(i, j) && d(i, j) == 2 * p(i, j), "scaling");
            auto m = p - h; auto n = h + p; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) CHECK(m(i, j) == 0.5 * p(i, j) && n(i, j) == 1.5 * p(i, j), "sums of matrices of different types");
            bool eq = true; auto r = p; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) { auto t = p; t(i, j) += 1; CHECK(t != p && !(t == p), "matrices that differ at ", i, j, " compare equal"); } CHECK((r == p) == eq, "equality");
        });
}
static void matrices(ctx& c)
{
    std::vector<int> A{-1, 0, 2}, Z{0, 3};
    products<1, 1, 1>(c, {-3, -1, 0, 2, 5}); products<1, 2, 1>(c, A); products<2, 1, 2>(c, A); products<2, 2, 2>(c, A); products<2, 2, 1>(c, A); products<1, 3, 2>(c, Z); products<2, 3, 1>(c, Z); products<3, 2, 2>(c, Z);
    if (c.thorough()) { products<3, 3, 1>(c, Z); products<2, 3, 2>(c, Z); products<1, 3, 2>(c, A); }
    c.each([&] (auto& o) { o << "vectors, diagonals"; }, [&]
    {
        auto s = mara::make_sequence(3, -1, 4); auto r = mara::row_vector(s); auto k = mara::column_vector(s);
        for (int i = 0; i < 3; ++i) CHECK(r(0, i) == s[i] && k(i, 0) == s[i], "row and column vectors");
        CHECK((r * k)(0, 0) == 26, "row times column"); auto o = k * r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) CHECK(o(i, j) == s[i] * s[j], "column times row");
        auto d = mara::diagonal_matrix<double>(1.5, 2, -3); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) CHECK(d(i, j) == (i != j ? 0 : i == 0 ? 1.5 : i == 1 ? 2 : -3), "diagonal matrix");
        for (int n = 1; n < 5; ++n) { auto t = mara::identity_matrix<int, 4>(); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) CHECK(t(i, j) == (i == j), "identity"); }
        auto v = mara::matrix_t<mara::unit_velocity<double>, 2, 2>{{{1.0, 2.0}, {3.0, 4.0}}} * mara::matrix_t<mara::unit_mass<double>, 2, 1>{{{5.0}, {6.0}}};
        CHECK(v(0, 0).value == 17 && v(1, 0).value == 39 && v(0, 0).dimensions() == std::make_tuple(1, 1, -1), "product of matrices with units");
    });
    for (long x = 0; x < count<4>(A); ++x) for (long y = 0; y < count<4>(A); ++y)
        c.each([&] (auto& o) { o << "associativity of 2x2 matrices " << x << " " << y; }, [&] { c.step(); auto a = mat<2, 2>(x, A), b = mat<2, 2>(y, A), d = mat<2, 2>((x * 31 + y * 17) % 81, A); CHECK((a * b) * d == a * (b * d), "product is not associative"); CHECK((a + b) + d == a + (b + d) && a + b == b + a && a - b == (b - a) * -1, "sum"); });
}

// ----------------------------------------------------------------------- units
template<int C, int G, int S> static void units_of(ctx& c)
{
    using D = mara::dimensional_value_t<C, G, S, double>;
    c.each([&] (auto& o) { o << "quantity with exponents " << C << " " << G << " " << S; }, [&]
    {
        c.interesting(C || G || S); c.state(vf::mix(C + 9, vf::mix(G + 9, S + 9)));
        auto dims = [] (auto x, int a, int b, int d) { return x.dimensions() == std::make_tuple(a, b, d); };
        CHECK(D().value == 0, "default value");
        for (double x : {-2.5, 0.0, 0.25, 3.0}) for (double y : {-4.0, 0.5, 3.0})
        {
            c.step(12);
            auto a = mara::make_dimensional<C, G, S>(x); D b(y);
            CHECK(a.value == x && dims(a, C, G, S), "make_dimensional");
            CHECK((a + b).value == x + y && (a - b).value == x - y && (-a).value == -x && dims(a + b, C, G, S) && dims(a - b, C, G, S) && dims(-a, C, G, S), "sum and difference");
            CHECK((a * 3.0).value == x * 3 && (a / 3.0).value == x / 3 && dims(a * 3.0, C, G, S), "scaling");
            CHECK(a / b == x / y, "ratio of like quantities");
            auto l = mara::make_length(y); auto m = mara::make_mass(y); auto t = mara::make_time(y); auto v = mara::make_dimensional<2, -3, 1>(y);
            if constexpr (!(C == 1 && G == 0 && S == 0)) CHECK((a / l).value == x / y && dims(a / l, C - 1, G, S), "over length");
            if constexpr (!(C == 0 && G == 1 && S == 0)) CHECK((a / m).value == x / y && dims(a / m, C, G - 1, S), "over mass");
            if constexpr (!(C == 0 && G == 0 && S == 1)) CHECK((a / t).value == x / y && dims(a / t, C, G, S - 1), "over time");
            CHECK((a * l).value == x * y && dims(a * l, C + 1, G, S) && dims(a * m, C, G + 1, S) && dims(a * t, C, G, S + 1), "product"); CHECK((a * v).value == x * y && dims(a * v, C + 2, G - 3, S + 1), "product");
            CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "comparison");
            auto e = a; e += b; CHECK(e.value == x + y, "+="); e -= b; CHECK(vf::close(e.value, x, 1e-15, 1e-15), "-=");
            CHECK(vf::close(b.template pow<2>().value, y * y, 1e-14, 0) && dims(b.template pow<2>(), 2 * C, 2 * G, 2 * S), "square");
            CHECK(vf::close(b.template pow<-1>().value, 1 / y, 1e-14, 0) && dims(b.template pow<-1>(), -C, -G, -S), "reciprocal");
            CHECK(vf::close(b.template pow<3>().value, y * y * y, 1e-14, 0) && dims(b.template pow<3>(), 3 * C, 3 * G, 3 * S), "cube");
            if constexpr (C % 2 == 0 && G % 2 == 0 && S % 2 == 0) if (y > 0)
            {
                CHECK(vf::close(b.template pow<1, 2>().value, std::sqrt(y), 1e-14, 0) && dims(b.template pow<1, 2>(), C / 2, G / 2, S / 2), "square root");
                CHECK(vf::close(b.template pow<3, 2>().value, y * std::sqrt(y), 1e-14, 0) && dims(b.template pow<3, 2>(), C / 2 * 3, G / 2 * 3, S / 2 * 3), "power 3/2");
                CHECK(vf::close(b.template pow<-1, 2>().value, 1 / std::sqrt(y), 1e-14, 0) && dims(b.template pow<-1, 2>(), -C / 2, -G / 2, -S / 2), "power -1/2");
            }
            CHECK(mara::to_string(a) == std::to_string(x) + " (" + std::to_string(C) + " " + std::to_string(G) + " " + std::to_string(S) + ")", "to_string");
        }
    });
}
template<int K> static void units_from(ctx& c) { if constexpr (K < 125) { units_of<K % 5 - 2, K / 5 % 5 - 2, K / 25 - 2>(c); units_from<K + 1>(c); } }
static void units(ctx& c)
{
    units_from<0>(c);
    c.each([&] (auto& o) { o << "named units"; }, [&]
    {
        auto d = [] (auto x, int a, int b, int s) { return x.value == 2.0 && x.dimensions() == std::make_tuple(a, b, s); };
        CHECK(d(mara::make_scalar(2.0), 0, 0, 0) && d(mara::make_length(2.0), 1, 0, 0) && d(mara::make_mass(2.0), 0, 1, 0) && d(mara::make_time(2.0), 0, 0, 1) && d(mara::make_rate(2.0), 0, 0, -1) && d(mara::make_area(2.0), 2, 0, 0) && d(mara::make_velocity(2.0), 1, 0, -1) && d(mara::make_volume(2.0), 3, 0, 0), "kinematic units");
        CHECK(d(mara::make_flux(2.0), -2, 1, -1) && d(mara::make_flow(2.0), 0, 1, -1) && d(mara::make_mass_density(2.0), -3, 1, 0) && d(mara::make_flow_density(2.0), -3, 1, -1) && d(mara::make_energy(2.0), 2, 1, -2) && d(mara::make_force(2.0), 1, 1, -2) && d(mara::make_momentum(2.0), 1, 1, -1) && d(mara::make_torque(2.0), 2, 1, -2) && d(mara::make_angmom(2.0), 2, 1, -1), "dynamic units");
        CHECK(d(mara::unit_energy<double>(2.0), 2, 1, -2) && d(mara::unit_force<double>(2.0), 1, 1, -2) && d(mara::unit_momentum<double>(2.0), 1, 1, -1) && d(mara::unit_torque<double>(2.0), 2, 1, -2) && d(mara::unit_angmom<double>(2.0), 2, 1, -1) && d(mara::unit_flux<double>(2.0), -2, 1, -1) && d(mara::unit_flow<double>(2.0), 0, 1, -1), "unit types");
        CHECK(mara::make_scalar(2.5).scalar() == 2.5 && (mara::make_length(3.0) * mara::make_rate(2.0) / mara::make_velocity(4.0)) == 1.5, "scalar");
        auto x = mara::make_spatial_coordinate(1.0, 2.0, 3.0); auto a = mara::make_area_element(4.0, 5.0, 6.0);
        for (int i = 0; i < 3; ++i) CHECK(x[i].value == i + 1 && a[i].value == i + 4 && x[i].dimensions() == std::make_tuple(1, 0, 0) && a[i].dimensions() == std::make_tuple(2, 0, 0), "coordinates and areas");
        auto v = (x * a).sum(); CHECK(v.value == 32 && v.dimensions() == std::make_tuple(3, 0, 0), "volume from coordinates and areas");
    });
}
// directions in space, coordinates and elements of area
static void geometry(ctx& c)
{
    using mara::unit_vector_t;
    c.each([&] (auto& o) { o << "axes"; }, [&]
    {
        c.step(12); c.interesting(true); c.state(vf::hash(std::string("axes")));
        unit_vector_t A[3] = {unit_vector_t::on_axis_1(), unit_vector_t::on_axis_2(), unit_vector_t::on_axis_3()};
        for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) CHECK(A[i][j] == (i == j) && unit_vector_t::on_axis(i)[j] == (i == j), "axis ", i, " has component ", j, " ", A[i][j]);
        auto d = unit_vector_t(); CHECK(std::fabs(d[0] * d[0] + d[1] * d[1] + d[2] * d[2] - 1) < 1e-15, "the default direction is not a unit vector");
        for (std::size_t bad : {std::size_t(3), std::size_t(4), std::size_t(-1)}) CHECK(vf::throws([&] { unit_vector_t::on_axis(bad); }) && vf::throws([&] { d[bad]; }), "axis ", bad, " is accepted");
    });
    std::vector<double> L{-3, -1, -0.25, 0, 0.5, 1, 2};
    for (double x : L) for (double y : L) for (double z : L) if (x || y || z) for (double scale : {1.0, 1e-3, 1e4})
        c.each([&] (auto& o) { o << "direction of " << x << " " << y << " " << z << " times " << scale; }, [&]
        {
            c.step(8); c.interesting(x && y && z); c.state(vf::hash(vf::cat(x, " ", y, " ", z, " ", scale)));
            unit_vector_t n(x * scale, y * scale, z * scale); double r = std::sqrt(x * x + y * y + z * z), v[3] = {x, y, z};
            for (std::size_t i = 0; i < 3; ++i) CHECK(std::fabs(n[i] - v[i] / r) < 1e-14, "component ", i, " is ", n[i], " instead of ", v[i] / r);
            CHECK(n.get_n1() == n[0] && n.get_n2() == n[1] && n.get_n3() == n[2], "components by name");
            for (double a : {-2.0, 0.0, 1.5})
            {
                auto s = n * a; for (std::size_t i = 0; i < 3; ++i) CHECK(std::fabs(s[i] - a * v[i] / r) < 1e-13, "component ", i, " times ", a);
                for (double b : {-1.0, 0.5}) { CHECK(std::fabs(n.project(a, b, 3.0) - (a * x + b * y + 3 * z) / r) < 1e-13, "projection"); CHECK(std::fabs(n.project(mara::make_velocity(a), mara::make_velocity(b), mara::make_velocity(3.0)).value - (a * x + b * y + 3 * z) / r) < 1e-13, "projection of a velocity"); }
            }
            auto p = mara::make_spatial_coordinate(x, y, z); auto e = mara::make_area_element(x, y, z);
            for (std::size_t i = 0; i < 3; ++i) CHECK(p[i].value == v[i] && e[i].value == v[i], "coordinate or area ", i);
            auto t = mara::to_string(mara::arithmetic_sequence_t<double, 3>{{x, y, z}}); std::istringstream in(t); std::vector<double> got; for (std::string w; in >> w; ) try { got.push_back(std::stod(w)); } catch (...) {}
            CHECK(got.size() == 3 && std::fabs(got[0] - x) < 1e-5 && std::fabs(got[1] - y) < 1e-5 && std::fabs(got[2] - z) < 1e-5, "printed as ", t);
        });
}
int main(int argc, char** argv) { return vf::main(argc, argv, {{"sequences", sequences}, {"records", records}, {"matrices", matrices}, {"units", units}, {"geometry", geometry}}); }
