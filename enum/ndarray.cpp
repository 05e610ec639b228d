// C04: every array operator, alone and composed, agrees with element-by-element
// evaluation. States are reference arrays; transitions are operator
// applications, performed on the real (lazy) array and on the reference.
#include "vf.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "app_parallel.hpp"
#include <list>

using vf::ctx;
using V = std::vector<std::size_t>;
static std::string str(const V& v) { std::string s = "("; for (size_t n = 0; n < v.size(); ++n) s += (n ? "," : "") + std::to_string(v[n]); return s + ")"; }

// ------------------------------------------------------------ reference array
struct ref
{
    V shape;
    std::vector<double> data;
    ref() {}
    ref(V s) : shape(s), data(vol(s)) {}
    static std::size_t vol(const V& s) { std::size_t v = 1; for (auto x : s) v *= x; return v; }
    std::size_t off(const V& i) const { std::size_t o = 0; for (size_t a = 0; a < shape.size(); ++a) { if (i[a] >= shape[a]) vf::fail("reference out of range"); o = o * shape[a] + i[a]; } return o; }
    double& at(const V& i) { return data[off(i)]; }
    double at(const V& i) const { return data[off(i)]; }
    template<typename F> void each(F&& f) const
    {
        if (data.empty()) return;
        V i(shape.size(), 0);
        for (;;)
        {
            f(i);
            int n = (int) shape.size() - 1;
            while (n >= 0 && ++i[n] >= shape[n]) i[n--] = 0;
            if (n < 0) return;
        }
    }
    template<typename F> static ref make(V s, F&& f) { ref r(s); r.each([&] (const V& i) { r.at(i) = f(i); }); return r; }
    uint64_t hash() const { uint64_t h = shape.size(); for (auto x : shape) h = vf::mix(h, x); for (auto x : data) h = vf::mix(h, vf::bits(x)); return h; }
};
struct refused {};   // the reference says: this must be rejected
struct skip {};      // outside the domain of the property

template<std::size_t R> nd::index_t<R> ix(const V& v) { return nd::index_t<R>::from_range(v); }
template<std::size_t R> nd::shape_t<R> sh(const V& v) { return nd::shape_t<R>::from_range(v); }
template<std::size_t R> V vec(const nd::shape_t<R>& s) { return V(s.begin(), s.end()); }
template<std::size_t R> V vec(const nd::index_t<R>& s) { return V(s.begin(), s.end()); }

template<std::size_t R> using fn_t = std::function<double(nd::index_t<R>)>;
template<std::size_t R> using lazy_t = nd::array_t<nd::basic_provider_t<fn_t<R>, R>>;

// any array, as a lazy array of one type (the underlying operator stays lazy)
template<typename A> auto erase(A a)
{
    constexpr std::size_t R = A::array_rank;
    auto shape = a.shape();
    fn_t<R> f = [a] (nd::index_t<R> i) { return double(a(i)); };
    return nd::make_array(f, shape);
}

static double val(const V& i, int salt) { double x = 3 + 11 * salt; int k = 1; for (auto n : i) { x += double(n) * k; k *= 10; } return x * (1 + (i.size() + salt + (i.empty() ? 0 : i[0])) % 3) - 20; }
template<std::size_t R> lazy_t<R> source(const V& s, int salt) { fn_t<R> f = [salt] (nd::index_t<R> i) { return val(vec<R>(i), salt); }; return nd::make_array(f, sh<R>(s)); }
static ref rsource(const V& s, int salt) { return ref::make(s, [&] (const V& i) { return val(i, salt); }); }

template<std::size_t R> struct op
{
    std::string name;
    std::function<lazy_t<R>(lazy_t<R>)> impl;
    std::function<ref(const ref&)> model;
};

template<typename A> void compare(const A& a, const ref& r)
{
    constexpr std::size_t R = A::array_rank;
    CHECK(vec<R>(a.shape()) == r.shape, "shape is ", str(vec<R>(a.shape())), ", expected ", str(r.shape));
    CHECK(a.size() == r.data.size(), "size");
    for (std::size_t n = 0; n < R; ++n) CHECK(a.shape(n) == r.shape[n], "shape(axis)");
    r.each([&] (const V& i) { double x = a(ix<R>(i)); CHECK(x == r.at(i), "element ", str(i), " is ", x, ", expected ", r.at(i)); });
}

// -------------------------------------------------------------- operator menu
template<std::size_t R> struct menu
{
    using L = lazy_t<R>;
    std::vector<op<R>> v;
    V s;
    bool full;

    void add(std::string n, std::function<L(L)> f, std::function<ref(const ref&)> m) { v.push_back({n, f, m}); }

    static ref selected(const ref& r, const V& a, const V& b, const V& j)
    {
        V n(R);
        for (std::size_t k = 0; k < R; ++k)
        {
            n[k] = b[k] > a[k] ? (b[k] - a[k] + j[k] - 1) / j[k] : 0;
            if (a[k] > r.shape[k]) throw refused{};
            if (n[k] && a[k] + (n[k] - 1) * j[k] >= r.shape[k]) throw refused{};
        }
        return ref::make(n, [&] (V i) { for (std::size_t k = 0; k < R; ++k) i[k] = a[k] + j[k] * i[k]; return r.at(i); });
    }
    static nd::access_pattern_t<R> pattern(const V& a, const V& b, const V& j)
    {
        return nd::access_pattern_t<R>().with_start(ix<R>(a)).with_final(ix<R>(b)).with_jumps(nd::jumps_t<R>::from_range(j));
    }

    menu(V shape, bool full) : s(shape), full(full)
    {
        V zero(R, 0), one(R, 1);
        // ---- selections: vary one axis at a time through every (start, final, stride)
        for (std::size_t ax = 0; ax < R; ++ax)
            for (std::size_t a = 0; a <= s[ax]; ++a) for (std::size_t b = a; b <= s[ax] + 1; ++b) for (std::size_t j = 1; j <= (full ? 3u : 2u); ++j)
            {
                if (!full && b - a > 2 && b != s[ax]) continue;
                V A = zero, B = s, J = one; A[ax] = a; B[ax] = b; J[ax] = j;
                auto nm = vf::cat("select ", str(A), " to ", str(B), " by ", str(J));
                auto model = [=] (const ref& r) { return selected(r, A, B, J); };
                add(nm, [=] (L x) { return erase(x | nd::select(pattern(A, B, J))); }, model);
                if (full) add("select_from: " + nm, [=] (L x) { return erase(x | nd::select_from(ix<R>(A)).to(ix<R>(B)).jumping(nd::jumps_t<R>::from_range(J))); }, model);
                if (b <= s[ax])
                {
                    add(vf::cat("select_axis ", ax, " ", a, ":", b, ":", j), [=] (L x) { return erase(x | nd::select_axis(ax).from(a).to(b).jumping(j)); }, model);
                    if (full || j == 1) add(vf::cat("select_axis ", ax, " ", a, ":-", s[ax] - b, ":", j), [=, n = s[ax]] (L x) { return erase(x | nd::select_axis(ax).from(a).to(n - b).from_the_end().jumping(j)); }, model);
                }
            }
        if constexpr (R > 1) if (full)   // corners: all axes at once
        {
            V A(R), B(R), J(R, 1);
            for (std::size_t k = 0; k < R; ++k) { A[k] = s[k] > 1 ? 1 : 0; B[k] = s[k]; J[k] = 1 + k; }
            add("select corner", [=] (L x) { return erase(x | nd::select(pattern(A, B, J))); }, [=] (const ref& r) { return selected(r, A, B, J); });
            for (std::size_t k = 0; k < R; ++k) { A[k] = 0; B[k] = s[k] ? s[k] - 1 : 0; J[k] = R - k; }
            add("select corner'", [=] (L x) { return erase(x | nd::select(pattern(A, B, J))); }, [=] (const ref& r) { return selected(r, A, B, J); });
        }
        add("select_axis out of rank", [] (L x) { return erase(x | nd::select_axis(R).from(0).to(0)); }, [] (const ref&) -> ref { throw refused{}; });
        // ---- shift
        for (std::size_t ax = 0; ax < R; ++ax) for (std::size_t k = 0; k <= s[ax] + 1; ++k)
            add(vf::cat("shift_by -", k, " axis ", ax), [=] (L x) { return erase(x | nd::shift_by(-int(k)).along_axis(ax)); }, [=] (const ref& r)
            {
                if (k >= r.shape[ax]) throw refused{};
                V n = r.shape; n[ax] -= k;
                return ref::make(n, [&] (V i) { i[ax] += k; return r.at(i); });
            });
        // ---- concatenation
        for (std::size_t ax = 0; ax < R; ++ax) for (std::size_t k : {0, 1, 2})
        {
            V t = s; t[ax] = k;
            add(vf::cat("concat ", str(t), " on ", ax), [=] (L x) { return erase(x | nd::concat(source<R>(t, 5)).on_axis(ax)); }, [=] (const ref& r)
            {
                auto o = rsource(t, 5); V n = r.shape; n[ax] += k;
                return ref::make(n, [&] (V i) { if (i[ax] < r.shape[ax]) return r.at(i); i[ax] -= r.shape[ax]; return o.at(i); });
            });
            if (full && R > 1)
            {
                V u = t; u[(ax + 1) % R] += 1;
                add(vf::cat("concat mismatched ", str(u), " on ", ax), [=] (L x) { return erase(x | nd::concat(source<R>(u, 5)).on_axis(ax)); }, [] (const ref&) -> ref { throw refused{}; });
            }
        }
        // ---- replacement of a region
        for (std::size_t ax = 0; ax < R; ++ax) for (std::size_t a = 0; a < s[ax]; ++a) for (std::size_t b = a + 1; b <= s[ax]; ++b) for (std::size_t j = 1; j <= 2; ++j)
        {
            if (!full && b != a + 1 && b != s[ax]) continue;
            V A = zero, B = s, J = one, T = s; A[ax] = a; B[ax] = b; J[ax] = j; T[ax] = (b - a + j - 1) / j;
            auto model = [=] (const ref& r)
            {
                auto o = rsource(T, 7); ref q = r;
                o.each([&] (const V& i) { V k = i; for (std::size_t m = 0; m < R; ++m) k[m] = A[m] + J[m] * i[m]; q.at(k) = o.at(i); });
                return q;
            };
            auto nm = vf::cat("replace ", str(A), " to ", str(B), " by ", str(J));
            add(nm, [=] (L x) { return erase(x | nd::replace(pattern(A, B, J), source<R>(T, 7))); }, model);
            if (full)
            {
                add("replace_from: " + nm, [=] (L x) { return erase(x | nd::replace_from(ix<R>(A)).to(ix<R>(B)).jumping(nd::jumps_t<R>::from_range(J)).with(source<R>(T, 7))); }, model);
                V U = T; U[ax] += 1;
                add(nm + " wrong size", [=] (L x) { return erase(x | nd::replace(pattern(A, B, J), source<R>(U, 7))); }, [] (const ref&) -> ref { throw refused{}; });
            }
        }
        // ---- maps and arithmetic
        auto elementwise = [&] (std::string n, std::function<L(L)> f, std::function<double(double, double)> g)
        {
            V t = s;
            add(n, f, [=] (const ref& r) { auto o = rsource(t, 2); return ref::make(r.shape, [&] (const V& i) { return g(r.at(i), o.at(i)); }); });
        };
        V t = s;
        elementwise("map", [] (L x) { return erase(x | nd::map([] (double y) { return 3 * y - 1; })); }, [] (double y, double) { return 3 * y - 1; });
        elementwise("+", [t] (L x) { return erase(x + source<R>(t, 2)); }, [] (double y, double z) { return y + z; });
        elementwise("-", [t] (L x) { return erase(x - source<R>(t, 2)); }, [] (double y, double z) { return y - z; });
        elementwise("*", [t] (L x) { return erase(x * source<R>(t, 2)); }, [] (double y, double z) { return y * z; });
        if (full)
        {
            elementwise("/", [t] (L x) { return erase((x * 4.0) / 2.0); }, [] (double y, double) { return y * 2; });
            elementwise("a / b", [t] (L x) { return erase(x / (source<R>(t, 2) * source<R>(t, 2) + 1.0)); }, [] (double y, double z) { return y / (z * z + 1.0); });
            elementwise("+ scalar", [] (L x) { return erase(x + 5.0); }, [] (double y, double) { return y + 5; });
            elementwise("- scalar", [] (L x) { return erase(x - 5.0); }, [] (double y, double) { return y - 5; });
            elementwise("multiply", [] (L x) { return erase(x | nd::multiply(3.0)); }, [] (double y, double) { return y * 3; });
            elementwise("divide", [] (L x) { return erase(x | nd::divide(4.0)); }, [] (double y, double) { return y / 4; });
            elementwise("unary -", [] (L x) { return erase(-x); }, [] (double y, double) { return -y; });
            elementwise("unary +", [] (L x) { return erase(+x); }, [] (double y, double) { return y; });
            elementwise("!", [] (L x) { return erase(!(x > 0.0)); }, [] (double y, double) { return !(y > 0); });
            elementwise("<", [t] (L x) { return erase(x < source<R>(t, 2)); }, [] (double y, double z) { return y < z; });
            elementwise(">", [t] (L x) { return erase(x > source<R>(t, 2)); }, [] (double y, double z) { return y > z; });
            elementwise("<=", [t] (L x) { return erase(x <= x + (source<R>(t, 2) > 0.0) - 1.0); }, [] (double y, double z) { return y <= y + (z > 0) - 1.0; });
            elementwise(">=", [t] (L x) { return erase(x >= x - (source<R>(t, 2) > 0.0) + 1.0); }, [] (double y, double z) { return y >= y - (z > 0) + 1.0; });
            elementwise("==", [t] (L x) { return erase(x == x * (source<R>(t, 2) > 0.0)); }, [] (double y, double z) { return y == y * (z > 0); });
            elementwise("!=", [t] (L x) { return erase(x != x * (source<R>(t, 2) > 0.0)); }, [] (double y, double z) { return y != y * (z > 0); });
            elementwise("&&", [t] (L x) { return erase((x > 0.0) && (source<R>(t, 2) > 5.0)); }, [] (double y, double z) { return y > 0 && z > 5; });
            elementwise("||", [t] (L x) { return erase((x > 0.0) || (source<R>(t, 2) > 5.0)); }, [] (double y, double z) { return y > 0 || z > 5; });
            elementwise("zip apply", [t] (L x) { return erase(nd::zip(x, source<R>(t, 2), x + 1.0) | nd::apply([] (double a, double b, double d) { return a + 10 * b + 100 * d; })); }, [] (double y, double z) { return y + 10 * z + 100 * (y + 1); });
            elementwise("get<1> zip", [t] (L x) { return erase(nd::get<1>(nd::zip(x, source<R>(t, 2)))); }, [] (double, double z) { return z; });
            elementwise("unzip", [t] (L x) { auto [a, b] = nd::unzip(nd::zip(x, source<R>(t, 2))); return erase(a - b); }, [] (double y, double z) { return y - z; });
            elementwise("binary_op", [t] (L x) { return erase(nd::binary_op([] (double a, double b) { return a + 2 * b; })(x, source<R>(t, 2))); }, [] (double y, double z) { return y + 2 * z; });
            elementwise("where/read", [t] (L x) { return erase(x | nd::read_indexes(nd::index_array(x.shape()))); }, [] (double y, double) { return y; });
            for (std::size_t ax = 0; ax < R; ++ax)
            {
                V u = s; u[ax] += 1;
                auto no = [] (const ref&) -> ref { throw refused{}; };
                add(vf::cat("+ of other shape ", str(u)), [=] (L x) { return erase(x + source<R>(u, 2)); }, no);
                add(vf::cat("zip of other shape ", str(u)), [=] (L x) { return erase(nd::get<0>(nd::zip(x, source<R>(u, 2)))); }, no);
            }
        }
        // ---- storage
        auto same = [] (const ref& r) { return r; };
        add("to_shared", [] (L x) { return erase(x | nd::to_shared()); }, same);
        add("to_unique", [] (L x) { return erase((x | nd::to_unique()).shared()); }, same);
        add("bounds_check", [] (L x) { return erase(x | nd::bounds_check()); }, same);
        if (full)
        {
            add("shared()", [] (L x) { return erase(x.shared()); }, same);
            add("unique()", [] (L x) { auto u = x.unique(); auto c = u.shared(); for (auto i : u.indexes()) u(i) = -777; return erase(c); }, same);
            add("move unique to shared", [] (L x) { auto u = nd::evaluate_as_unique(x.get_provider()); return erase(nd::make_array(std::move(u).shared())); }, same);
            add("evaluate_on<1>", [] (L x) { return erase(x | mara::evaluate_on<1>()); }, same);
            add("evaluate_on<3>", [] (L x) { return erase(x | mara::evaluate_on<3>()); }, same);
            add("reversed by read_indexes", [t] (L x)
            {
                auto shape = x.shape();
                auto rev = nd::index_array(shape) | nd::map([shape] (auto i) { for (std::size_t k = 0; k < R; ++k) i[k] = shape[k] - 1 - i[k]; return i; });
                return erase(x | nd::read_indexes(rev));
            }, [] (const ref& r) { return ref::make(r.shape, [&] (V i) { for (std::size_t k = 0; k < R; ++k) i[k] = r.shape[k] - 1 - i[k]; return r.at(i); }); });
            V rs(s.rbegin(), s.rend());
            add("reshape reversed", [=] (L x) { return erase(x.shared() | nd::reshape(sh<R>(rs))); }, [=] (const ref& r) { ref q = r; q.shape = rs; return q; });
            add("reshape unique", [=] (L x) { return erase((x.unique() | nd::reshape(sh<R>(rs))).shared()); }, [=] (const ref& r) { ref q = r; q.shape = rs; return q; });
            V big = s; big[0] += 1;
            if (ref::vol(big) != ref::vol(s)) add("reshape to another size", [=] (L x) { return erase(x.shared() | nd::reshape(sh<R>(big))); }, [] (const ref&) -> ref { throw refused{}; });
        }
        // ---- stencil operators
        for (std::size_t ax = 0; ax < R; ++ax)
        {
            auto take = [=] (std::size_t a, std::size_t n) { return [=] (const ref& r) {
                if (a + n > r.shape[ax]) throw refused{};
                V m = r.shape; m[ax] = n; return ref::make(m, [&] (V i) { i[ax] += a; return r.at(i); }); }; };
            std::size_t n = s[ax];
            if (n >= 1)
            {
                add(vf::cat("take_first ", ax), [=] (L x) { return erase(x | nd::take_first_on_axis(ax)); }, take(0, 1));
                add(vf::cat("take_final ", ax), [=] (L x) { return erase(x | nd::take_final_on_axis(ax)); }, take(n - 1, 1));
                add(vf::cat("drop_first ", ax), [=] (L x) { return erase(x | nd::drop_first_on_axis(ax)); }, take(1, n - 1));
                add(vf::cat("drop_final ", ax), [=] (L x) { return erase(x | nd::drop_final_on_axis(ax)); }, take(0, n - 1));
                auto pair = [=] (std::function<double(double, double)> g) { return [=] (const ref& r) {
                    V m = r.shape; m[ax] -= 1; return ref::make(m, [&] (V i) { double a = r.at(i); i[ax] += 1; return g(a, r.at(i)); }); }; };
                add(vf::cat("midpoint ", ax), [=] (L x) { return erase(x | nd::midpoint_on_axis(ax)); }, pair([] (double a, double b) { return (a + b) * 0.5; }));
                add(vf::cat("difference ", ax), [=] (L x) { return erase(x | nd::difference_on_axis(ax)); }, pair([] (double a, double b) { return b - a; }));
                add(vf::cat("zip_adjacent2 ", ax), [=] (L x) { return erase(x | nd::zip_adjacent2_on_axis(ax) | nd::apply([] (double a, double b) { return a + 7 * b; })); }, pair([] (double a, double b) { return a + 7 * b; }));
                add(vf::cat("extend_zero_gradient ", ax), [=] (L x) { return erase(x | nd::extend_zero_gradient(ax)); }, [=] (const ref& r) {
                    V m = r.shape; m[ax] += 2; return ref::make(m, [&] (V i) { i[ax] = i[ax] == 0 ? 0 : i[ax] > r.shape[ax] ? r.shape[ax] - 1 : i[ax] - 1; return r.at(i); }); });
                add(vf::cat("extend_zeros ", ax), [=] (L x) { return erase(x | nd::extend_zeros(ax)); }, [=] (const ref& r) {
                    V m = r.shape; m[ax] += 2; return ref::make(m, [&] (V i) { if (i[ax] == 0 || i[ax] > r.shape[ax]) return 0.0; i[ax] -= 1; return r.at(i); }); });
            }
            if (n >= 2) add(vf::cat("zip_adjacent3 ", ax), [=] (L x) { return erase(x | nd::zip_adjacent3_on_axis(ax) | nd::apply([] (double a, double b, double d) { return a + 7 * b + 49 * d; })); }, [=] (const ref& r) {
                V m = r.shape; m[ax] -= 2; return ref::make(m, [&] (V i) { double a = r.at(i); i[ax] += 1; double b = r.at(i); i[ax] += 1; return a + 7 * b + 49 * r.at(i); }); });
            for (std::size_t g = 0; g <= n + 1; ++g)
            {
                if (!full && g > 1) continue;
                add(vf::cat("extend_periodic ", ax, " guard ", g), [=] (L x) { return erase(g == 1 ? erase(x | nd::extend_periodic_on_axis(ax)) : erase(x | nd::extend_periodic_on_axis(ax, g))); }, [=] (const ref& r) {
                    if (g > r.shape[ax]) throw refused{};
                    V m = r.shape; m[ax] += 2 * g; return ref::make(m, [&] (V i) { i[ax] = (i[ax] + r.shape[ax] - g) % r.shape[ax]; return r.at(i); }); });
                if (full)
                {
                    add(vf::cat("select_first ", g, " on ", ax), [=] (L x) { return erase(x | nd::select_first(g, ax)); }, take(0, g));
                    add(vf::cat("select_final ", g, " on ", ax), [=] (L x) { return erase(x | nd::select_final(g, ax)); }, [=] (const ref& r) { if (g > r.shape[ax]) throw refused{}; return take(r.shape[ax] - g, g)(r); });
                }
            }
        }
    }
};

// ----------------------------------- observations that leave the rank-R world
template<std::size_t R> void observations(const lazy_t<R>& a, const ref& r)
{
    double sum = 0; bool all = true, any = false; double lo = 0, hi = 0; bool first = true;
    std::vector<V> hits;
    r.each([&] (const V& i) { double x = r.at(i); sum += x; all &= x > 0; any |= x > 0; if (first || x < lo) lo = x; if (first || x > hi) hi = x; first = false; if (x > 0) hits.push_back(i); });
    CHECK(vf::close(a | nd::sum(), sum, 1e-13, 1e-12), "sum ", a | nd::sum(), " expected ", sum);
    CHECK(((a > 0.0) | nd::sum()) == hits.size(), "sum of booleans");
    CHECK(((a > 0.0) | nd::all()) == all, "all"); CHECK(((a > 0.0) | nd::any()) == any, "any");
    if (!first) { CHECK((a | nd::min()) == lo, "min"); CHECK((a | nd::max()) == hi, "max"); CHECK(nd::min(a) == lo && nd::max(a) == hi, "min/max"); }
    auto w = nd::where(a > 0.0);
    CHECK(w.size() == hits.size(), "where");
    for (std::size_t n = 0; n < hits.size(); ++n) CHECK(vec<R>(w(n)) == hits[n], "where element ", n);
    auto picked = a | nd::read_indexes(w);
    CHECK(picked.size() == hits.size(), "read_indexes");
    for (std::size_t n = 0; n < hits.size(); ++n) CHECK(picked(n) == r.at(hits[n]), "read_indexes element ", n);
    std::size_t n = 0;
    for (auto x : a) { CHECK(n < r.data.size() && x == r.data[n], "iteration at ", n); ++n; }
    CHECK(n == r.data.size(), "iteration count");
    auto S = a.shared();
    for (std::size_t k = 0; k < r.data.size(); ++k) CHECK(S.data()[k] == r.data[k], "row-major memory at ", k);
    if constexpr (R > 1) for (std::size_t ax = 0; ax < R; ++ax)
    {
        V m; for (std::size_t k = 0; k < R; ++k) if (k != ax) m.push_back(r.shape[k]);
        for (std::size_t at = 0; at < r.shape[ax]; ++at)
            compare(a | nd::freeze_axis(ax).at_index(at), ref::make(m, [&] (V i) { i.insert(i.begin() + ax, at); return r.at(i); }));
        compare(a | nd::collect(nd::sum()).along_axis(ax), ref::make(m, [&] (V i) { double t = 0; i.insert(i.begin() + ax, 0); for (std::size_t q = 0; q < r.shape[ax]; ++q) { i[ax] = q; t += r.at(i); } return t; }));
        if (r.shape[ax]) compare(a | nd::collect([] (auto&& v) { return nd::max(v) - nd::min(v) * 2 + v.size(); }).along_axis(ax), ref::make(m, [&] (V i) { i.insert(i.begin() + ax, 0); double h = r.at(i), l = h; for (std::size_t q = 0; q < r.shape[ax]; ++q) { i[ax] = q; h = std::max(h, r.at(i)); l = std::min(l, r.at(i)); } return h - l * 2 + r.shape[ax]; }));
    }
    if constexpr (R == 3)
    {
        // freeze two axes at once
        for (std::size_t p = 0; p < 3; ++p)
        {
            nd::index_t<2> axes; std::size_t k = 0; for (std::size_t q = 0; q < 3; ++q) if (q != p) axes[k++] = q;
            if (r.data.empty()) continue;
            nd::index_t<2> at; at[0] = r.shape[axes[0]] - 1; at[1] = 0;
            compare(a | nd::axis_freezer_t<2>(axes).at_index(at), ref::make({r.shape[p]}, [&] (V i) { V j(3); j[p] = i[0]; j[axes[0]] = at[0]; j[axes[1]] = 0; return r.at(j); }));
        }
    }
    CHECK(vf::throws([&] { a | nd::freeze_axis(R); }), "freeze of a missing axis accepted");
    CHECK(vf::throws([&] { a | nd::collect(nd::sum()).along_axis(R); }), "reduction of a missing axis accepted");
    CHECK(vf::throws([&] { a | nd::shift_by(0).along_axis(R); }), "shift of a missing axis accepted");
    CHECK(vf::throws([&] { a | nd::concat(a).on_axis(R); }), "concatenation on a missing axis accepted");
    // checked access: everything in a box one larger than the array
    auto checked = a | nd::bounds_check();
    V box = r.shape; for (auto& x : box) x += 1;
    ref(box).each([&] (const V& i)
    {
        bool in = true; for (std::size_t k = 0; k < R; ++k) if (i[k] >= r.shape[k]) in = false;
        if (in) CHECK(checked(ix<R>(i)) == r.at(i), "checked read"); else CHECK(vf::throws_as<std::out_of_range>([&] { checked(ix<R>(i)); }), "read at ", str(i), " not refused");
    });
    if constexpr (R == 1) { CHECK(vf::throws_as<std::out_of_range>([&] { checked(std::size_t(-1)); }), "index -1 not refused"); for (std::size_t i = 0; i < r.shape[0]; ++i) CHECK(a(i) == r.data[i] && (a | nd::read_index(i)) == r.data[i], "variadic access"); }
    if constexpr (R == 2) r.each([&] (const V& i) { CHECK(a(i[0], i[1]) == r.at(i) && (a | nd::read_index(i[0], i[1])) == r.at(i), "variadic access"); });
    if constexpr (R == 3) r.each([&] (const V& i) { CHECK(a(i[0], i[1], i[2]) == r.at(i) && (a | nd::read_index(ix<R>(i))) == r.at(i), "variadic access"); });
}

template<std::size_t R> struct searcher
{
    ctx& c;
    std::vector<std::string> path;
    void visit(const lazy_t<R>& a, const ref& r, int depth, bool full, bool observe)
    {
        c.state(r.hash());
        compare(a, r);
        if (observe) observations<R>(a, r);
        if (depth == 0) return;
        menu<R> m(r.shape, full);
        for (auto& o : m.v) step(o, a, r, depth, false);
    }
    void step(const op<R>& o, const lazy_t<R>& a, const ref& r, int depth, bool observe)
    {
        path.push_back(o.name);
        ref q; bool must_throw = false;
        try { q = o.model(r); } catch (refused) { must_throw = true; }
        c.step();
        if (must_throw)
        {
            bool thrown = false;
            try { o.impl(a); } catch (const std::exception&) { thrown = true; }
            if (!thrown) vf::fail("not refused: " + show());
        }
        else if (ref::vol(q.shape) <= 400)
        {
            std::string what;
            try { visit(o.impl(a), q, depth - 1, false, observe); }
            catch (const vf::failure_t& f) { if (f.what.find(" after ") == std::string::npos) vf::fail(f.what + " after " + show()); throw; }
            catch (const std::exception& e) { vf::fail(std::string("exception ") + e.what() + " after " + show()); }
        }
        path.pop_back();
    }
    std::string show() const { std::string s; for (auto& p : path) s += (s.empty() ? "" : " | ") + p; return s; }
};

template<std::size_t R> void search(ctx& c, std::size_t extent, int depth)
{
    std::vector<V> shapes;
    ref big(V(R, extent + 1)); big.each([&] (const V& i) { shapes.push_back(i); });
    for (auto& s : shapes)
    {
        menu<R> m(s, true);
        // one case per (shape, first operator); everything below it is explored
        for (std::size_t k = 0; k <= m.v.size(); ++k) for (int stored = 0; stored < 2; ++stored)
            c.each([&] (auto& o) { o << "shape " << str(s) << (stored ? " stored" : " lazy") << ", then " << (k ? m.v[k - 1].name : "observe"); }, [&]
            {
                auto r = rsource(s, 1);
                auto a = source<R>(s, 1);
                if (stored) a = erase(a.shared());
                searcher<R> q{c, {}};
                if (k == 0) q.visit(a, r, 0, true, true);
                else q.step(m.v[k - 1], a, r, stored ? 1 : depth, true);
                compare(a, r);   // the operand is unchanged
                c.interesting(ref::vol(s) > 1);
            });
    }
}

// each rank is compiled separately (VF_PART), for build time only
void rank1(ctx& c); void rank2(ctx& c); void rank3(ctx& c);
#if VF_PART == 1
void rank1(ctx& c) { search<1>(c, c.pick(4, 6), c.pick(2, 3)); }
#elif VF_PART == 2
void rank2(ctx& c) { search<2>(c, c.pick(3, 3), 2); }
#elif VF_PART == 3
void rank3(ctx& c) { search<3>(c, 2, c.pick(1, 2)); }
#else

// ---------------------------------------------------- products, small factories
static void factories(ctx& c)
{
    for (std::size_t n = 0; n <= 4; ++n) for (std::size_t m = 0; m <= 4; ++m) for (std::size_t k = 0; k <= 2; ++k)
        c.each([&] (auto& o) { o << "products " << n << " " << m << " " << k; }, [&]
        {
            auto a = source<1>({n}, 1), b = source<1>({m}, 2), d = source<1>({k}, 3);
            auto P = nd::cartesian_product(a, b, d);
            CHECK(P.shape() == nd::make_shape(n, m, k), "shape");
            for (auto i : P.indexes()) CHECK(P(i) == std::make_tuple(a(i[0]), b(i[1]), d(i[2])), "element");
            auto [X, Y] = nd::meshgrid(a, b);
            CHECK(X.shape() == nd::make_shape(n, m) && Y.shape() == nd::make_shape(n, m), "meshgrid shape");
            for (auto i : X.indexes()) CHECK(X(i) == a(i[0]) && Y(i) == b(i[1]), "meshgrid element");
            auto Z = nd::zeros<double>(n, m, k); auto O = nd::ones<int>(n, m);
            CHECK(Z.size() == n * m * k && O.size() == n * m, "size");
            for (auto z : Z) CHECK(z == 0.0, "zeros"); for (auto z : O) CHECK(z == 1, "ones");
            auto I = nd::index_array(n, m);
            for (auto i : I.indexes()) CHECK(I(i) == i, "index_array");
            auto U = nd::make_unique_array<int>(n, m); auto S = nd::make_shared_array<int>(n, m);
            CHECK(U.shape() == nd::make_shape(n, m) && S.shape() == nd::make_shape(n, m), "shape");
            for (auto i : U.indexes()) CHECK(U(i) == 0 && S(i) == 0, "default value");
            int q = 0; for (auto i : U.indexes()) U(i) = q++;
            auto copy = U.shared();
            for (auto i : U.indexes()) U(i) = -1;
            q = 0; for (auto i : copy.indexes()) CHECK(copy(i) == q++, "later write reached a shared array");
            auto moved = std::move(U);
            for (auto i : moved.indexes()) CHECK(moved(i) == -1, "moved array");
            std::vector<int> sv; std::list<int> sl; for (std::size_t z = 0; z < n; ++z) { sv.push_back(5 * z + 1); sl.push_back(5 * z + 1); }
            auto fv = nd::make_array_from(sv), fl = nd::make_array_from(sl);
            CHECK(fv.size() == n && fl.size() == n, "make_array_from");
            for (std::size_t z = 0; z < n; ++z) CHECK(fv(z) == sv[z] && fl(z) == sv[z], "make_array_from element");
            auto pr = nd::promote(7, nd::make_shape(n, m));
            CHECK(pr.shape() == nd::make_shape(n, m), "promote"); for (auto x : pr) CHECK(x == 7, "promote");
            c.interesting(n * m > 1);
        });
}

static void buffers(ctx& c)
{
    for (std::size_t n = 0; n <= 6; ++n) for (std::size_t m = 0; m <= 6; ++m)
        c.each([&] (auto& o) { o << "buffers " << n << " " << m; }, [&]
        {
            nd::buffer_t<int> a(n, 7), b(m, 9);
            CHECK(a.size() == n && a.empty() == (n == 0), "");
            for (std::size_t i = 0; i < n; ++i) { CHECK(a[i] == 7 && a.at(i) == 7 && a.data()[i] == 7, ""); a[i] = int(i); }
            CHECK(vf::throws_as<std::out_of_range>([&] { a.at(n); }), "read past the end not refused");
            b = std::move(a);
            CHECK(b.size() == n && a.size() == 0, "move"); for (std::size_t i = 0; i < n; ++i) CHECK(b[i] == int(i), "");
            nd::buffer_t<int> d(std::move(b)); CHECK(d.size() == n && b.size() == 0, "");
            nd::buffer_t<int> e(d.begin(), d.end()); CHECK(e.size() == n, ""); for (std::size_t i = 0; i < n; ++i) CHECK(e[i] == int(i), "");
            if (n != m) CHECK(vf::throws([&] { nd::shared_provider_t<int, 1>(nd::make_shape(m), std::make_shared<nd::buffer_t<int>>(n)); }), "size mismatch accepted");
            c.interesting(n > 0);
        });
}

// index and shape helpers
static void helpers(ctx& c)
{
    ref box({3, 3, 3});
    std::vector<V> all; box.each([&] (const V& i) { all.push_back(i); });
    for (auto& a : all)
        c.each([&] (auto& o) { o << "index helpers " << str(a); }, [&]
        {
            auto A = ix<3>(a);
            for (std::size_t k = 0; k < 3; ++k)
            {
                V n = a, p = a; ++n[k]; --p[k];
                CHECK(vec<3>(A.next_on(k)) == n && vec<3>(A.prev_on(k)) == p, "next/prev");
                V rm = a; rm.erase(rm.begin() + k);
                CHECK(vec<2>(A.remove_elements(nd::make_index(k))) == rm, "remove");
                CHECK(vec<2>(sh<3>(a).remove_elements(nd::make_index(k))) == rm, "remove");
                CHECK(vec<3>(ix<2>(rm).insert_elements(nd::make_index(k), nd::make_index(a[k]))) == a, "insert");
            }
            CHECK(vf::throws([&] { A.next_on(3); }) && vf::throws([&] { A.prev_on(3); }), "missing axis accepted");
            CHECK(A.as_tuple() == std::make_tuple(a[0], a[1], a[2]), "tuple");
            for (auto& b : all)
            {
                auto B = ix<3>(b); bool lt = true, gt = true, le = true, ge = true, eq = a == b;
                for (int k = 0; k < 3; ++k) { lt &= a[k] < b[k]; gt &= a[k] > b[k]; le &= a[k] <= b[k]; ge &= a[k] >= b[k]; }
                CHECK((A < B) == lt && (A > B) == gt && (A <= B) == le && (A >= B) == ge && (A == B) == eq && (A != B) == !eq, "comparison with ", str(b));
                CHECK(sh<3>(b).contains(A) == lt, "contains");
            }
            c.interesting();
        });
}

// shift towards higher indexes: B(i) == A(i - 1) has no in-range meaning at i == 0
static void shift_positive(ctx& c)
{
    c.each([&] (auto& o) { o << "shift_by(+1) on an axis of length 3"; }, [&]
    {
        std::vector<std::size_t> seen;
        fn_t<1> f = [&] (nd::index_t<1> i) { seen.push_back(i[0]); return 0.0; };
        auto B = nd::make_array(f, nd::make_shape(3)) | nd::shift_by(1);
        for (auto i : B.indexes()) B(i);
        for (auto i : seen) CHECK(i < 3, "reads element ", (long) i);
    });
}

int main(int argc, char** argv)
{
    return vf::main(argc, argv, {
        {"rank1", rank1}, {"rank2", rank2}, {"rank3", rank3},
        {"factories", factories}, {"buffers", buffers}, {"helpers", helpers}, {"shift-positive", shift_positive},
    });
}
#endif
