// C07: refining and coarsening block data.
#include "vf.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "core_sequence.hpp"
#include "mesh_prolong_restrict.hpp"
#include <array>
using vf::ctx;
template<std::size_t R> using ext = std::array<std::size_t, R>;
template<std::size_t R> static nd::shape_t<R> nshape(const ext<R>& n) { nd::shape_t<R> s; for (std::size_t k = 0; k < R; ++k) s[k] = n[k]; return s; }
template<std::size_t R> static nd::index_t<R> nidx(const ext<R>& a) { nd::index_t<R> i; for (std::size_t k = 0; k < R; ++k) i[k] = a[k]; return i; }
template<std::size_t R> static ext<R> arr(const nd::index_t<R>& i) { ext<R> a; for (std::size_t k = 0; k < R; ++k) a[k] = i[k]; return a; }
template<std::size_t R> static ext<R> arr(const nd::shape_t<R>& i) { ext<R> a; for (std::size_t k = 0; k < R; ++k) a[k] = i[k]; return a; }
template<std::size_t R, typename F> static void each_index(const ext<R>& n, F&& f)
{
    ext<R> i{};
    std::function<void(std::size_t)> rec = [&] (std::size_t k) { if (k == R) { f(const_cast<const ext<R>&>(i)); return; } for (i[k] = 0; i[k] < n[k]; ++i[k]) rec(k + 1); };
    rec(0);
}
template<std::size_t R> static std::string str(const ext<R>& n) { std::string s; for (auto x : n) s += (s.empty() ? "" : "x") + std::to_string(x); return s; }
template<std::size_t R> static double generic(const ext<R>& i) { double v = 0.7; for (std::size_t k = 0; k < R; ++k) v = std::fmod(v * 13.375 + 3.1 * i[k] + 1.0, 17.0); return v; }
template<std::size_t R> static double linear(const ext<R>& i, double h=1.0) { double v = 0.5; for (std::size_t k = 0; k < R; ++k) v += (1.5 + k) * (h * i[k]); return v; }
template<typename A, typename F, std::size_t R> static void expect(const A& a, const ext<R>& n, F&& f, const char* what, double tol=1e-13)
{
    CHECK(a.shape() == nshape<R>(n), what, ": shape ", str<R>(arr<R>(a.shape())), " instead of ", str<R>(n));
    each_index<R>(n, [&] (const ext<R>& i) { double x = a(nidx<R>(i)), w = f(i); CHECK(vf::close(x, w, tol, tol), what, ": element ", str<R>(i), " is ", x, " instead of ", w); });
}
template<std::size_t R, typename F> static auto make(const ext<R>& n, F f) { return nd::make_array([f] (auto i) { return f(arr<R>(i)); }, nshape<R>(n)) | nd::to_shared(); }

template<std::size_t R> static void axes(ctx& c, const ext<R>& n)
{
    auto A = make<R>(n, generic<R>);
    for (std::size_t a = 0; a < R; ++a)
    {
        auto at = [&] (ext<R> i, std::size_t k) { i[a] = k; return generic<R>(i); };
        c.step(10);
        // ---- cells
        {
            auto m = n; m[a] *= 2;
            auto P = A | mara::prolong_cells(a) | nd::to_shared();
            expect<decltype(P)>(P, m, [&] (ext<R> i) { return at(i, i[a] / 2); }, "prolong_cells");
            expect(P | mara::restrict_cells(a), n, generic<R>, "restrict_cells after prolong_cells");
            expect(P | mara::restrict_extrinsic(a), n, [&] (ext<R> i) { return 2 * generic<R>(i); }, "restrict_extrinsic after prolong_cells");
            expect(make<R>(n, [] (auto) { return 3.5; }) | mara::prolong_cells(a), m, [] (auto) { return 3.5; }, "prolong_cells of a constant");
            auto lo = P | mara::bisect_cells_lower(a), hi = P | mara::bisect_cells_upper(a);
            expect(lo, n, [&] (ext<R> i) { return at(i, i[a] / 2); }, "lower half");
            expect(hi, n, [&] (ext<R> i) { return at(i, (i[a] + n[a]) / 2); }, "upper half");
            auto both = P | mara::bisect_cells(a);
            expect(std::get<0>(both), n, [&] (ext<R> i) { return at(i, i[a] / 2); }, "lower of two halves");
            expect(std::get<1>(both), n, [&] (ext<R> i) { return at(i, (i[a] + n[a]) / 2); }, "upper of two halves");
            CHECK(mara::prolong_shape_cells(nshape<R>(n), a) == nshape<R>(m), "prolong_shape_cells");
        }
        if (n[a] % 2 == 0)
        {
            auto m = n; m[a] /= 2;
            auto C = A | mara::restrict_cells(a) | nd::to_shared();
            expect(C, m, [&] (ext<R> i) { return 0.5 * (at(i, 2 * i[a]) + at(i, 2 * i[a] + 1)); }, "restrict_cells");
            auto E = A | mara::restrict_extrinsic(a) | nd::to_shared();
            expect(E, m, [&] (ext<R> i) { return at(i, 2 * i[a]) + at(i, 2 * i[a] + 1); }, "restrict_extrinsic");
            double t = 0, u = 0, v = 0;
            each_index<R>(n, [&] (auto& i) { t += generic<R>(i); });
            each_index<R>(m, [&] (auto& i) { u += C(nidx<R>(i)) * 2; v += E(nidx<R>(i)); });
            CHECK(vf::close(t, u) && vf::close(t, v), "totals ", t, " ", u, " ", v);
        }
        else CHECK(vf::throws([&] { A | mara::bisect_cells(a); }), "an odd number of cells is bisected");
        // ---- vertices
        {
            auto m = n; m[a] = 2 * n[a] - 1;
            auto P = A | mara::prolong_verts(a) | nd::to_shared();
            expect(P, m, [&] (ext<R> i) { return 0.5 * (at(i, i[a] / 2) + at(i, (i[a] + 1) / 2)); }, "prolong_verts");
            expect(P | mara::restrict_verts(a), n, generic<R>, "restrict_verts after prolong_verts");
            expect(make<R>(n, [] (auto i) { return linear<R>(i); }) | mara::prolong_verts(a), m, [&] (ext<R> i) { double h = 0.5 * i[a]; double v = 0.5; for (std::size_t k = 0; k < R; ++k) v += (1.5 + k) * (k == a ? h : double(i[k])); return v; }, "prolong_verts of a linear function");
            CHECK(mara::prolong_shape_verts(nshape<R>(n), a) == nshape<R>(m), "prolong_shape_verts");
            auto lo = P | mara::bisect_verts_lower(a), hi = P | mara::bisect_verts_upper(a);
            auto f = [&] (ext<R> i) { return 0.5 * (at(i, i[a] / 2) + at(i, (i[a] + 1) / 2)); };
            expect(lo, n, f, "lower half of the vertices");
            expect(hi, n, [&] (ext<R> i) { i[a] += n[a] - 1; return f(i); }, "upper half of the vertices");
            if (n[a] % 2 == 0) CHECK(vf::throws([&] { A | mara::bisect_verts(a); }), "an even number of vertices is bisected");
            else
            {
                auto q = n; q[a] = n[a] / 2 + 1;
                auto both = A | mara::bisect_verts(a);
                expect(std::get<0>(both), q, generic<R>, "lower of two halves of the vertices");
                expect(std::get<1>(both), q, [&] (ext<R> i) { return at(i, i[a] + n[a] / 2); }, "upper of two halves of the vertices");
                expect(A | mara::restrict_verts(a), q, [&] (ext<R> i) { return at(i, 2 * i[a]); }, "restrict_verts");
            }
        }
    }
}

template<std::size_t R> static void children(ctx& c, const ext<R>& n)
{
    auto A = make<R>(n, generic<R>);
    c.step(8);
    auto up = [&] (std::size_t q, std::size_t k) { return (q >> k) & 1; };
    {
        auto ch = A | mara::refine_cells<R>();
        for (std::size_t q = 0; q < (1u << R); ++q)
            expect(ch[q], n, [&] (ext<R> i) { for (std::size_t k = 0; k < R; ++k) i[k] = (i[k] + up(q, k) * n[k]) / 2; return generic<R>(i); }, "refine_cells");
        auto back = mara::combine_cells(ch) | mara::coarsen_cells<R>();
        expect(back, n, generic<R>, "coarsen_cells of refine_cells");
        // distinct blocks are put where they belong
        auto blocks = mara::iota<1 << R>().map([&] (std::size_t q) { return make<R>(n, [q] (ext<R> i) { return 1000.0 * (q + 1) + generic<R>(i); }); });
        auto m = n; for (auto& x : m) x *= 2;
        auto whole = mara::combine_cells(blocks);
        auto f = [&] (ext<R> i) { std::size_t q = 0; for (std::size_t k = 0; k < R; ++k) { if (i[k] >= n[k]) { q |= 1u << k; i[k] -= n[k]; } } return 1000.0 * (q + 1) + generic<R>(i); };
        expect(whole, m, f, "combine_cells");
        if (std::all_of(n.begin(), n.end(), [] (auto x) { return x > 0; }))
            expect(whole | mara::coarsen_cells<R>(), n, [&] (ext<R> i)
            {
                double s = 0;
                for (std::size_t q = 0; q < (1u << R); ++q) { auto j = i; for (std::size_t k = 0; k < R; ++k) j[k] = 2 * i[k] + up(q, k); s += f(j); }
                return s / (1 << R);
            }, "coarsen_cells", 1e-12);
    }
    {
        auto ch = A | mara::refine_verts<R>();
        auto half = [&] (std::array<double, R> x)   // multilinear interpolation at multiples of one half
        {
            double s = 0;
            for (std::size_t q = 0; q < (1u << R); ++q) { ext<R> j; for (std::size_t k = 0; k < R; ++k) { std::size_t t = std::size_t(2 * x[k] + 0.5); j[k] = up(q, k) ? (t + 1) / 2 : t / 2; } s += generic<R>(j); }
            return s / (1 << R);
        };
        for (std::size_t q = 0; q < (1u << R); ++q)
            expect(ch[q], n, [&] (ext<R> i) { std::array<double, R> x; for (std::size_t k = 0; k < R; ++k) x[k] = 0.5 * (i[k] + up(q, k) * (n[k] - 1)); return half(x); }, "refine_verts", 1e-12);
        if constexpr (R < 3)
        {
            expect(mara::combine_verts(ch) | mara::coarsen_verts<R>(), n, generic<R>, "coarsen_verts of refine_verts", 1e-12);
            auto m = n; for (auto& x : m) x = 2 * x - 1;
            auto blocks = mara::iota<1 << R>().map([&] (std::size_t q) { return make<R>(n, [q, n] (ext<R> i) { for (std::size_t k = 0; k < R; ++k) i[k] += ((q >> k) & 1) * (n[k] - 1); return generic<R>(i); }); });
            expect(mara::combine_verts(blocks), m, generic<R>, "combine_verts");
        }
        if constexpr (R == 3) CHECK(vf::throws_as<std::logic_error>([&] { mara::combine_verts(ch); }), "combine_verts in 3d");
        auto cv = A | mara::prolong_verts(0);
        auto all = A | mara::refine_verts<R>();
        // the corners of the children are the corners and midpoints of the parent
        for (std::size_t q = 0; q < (1u << R); ++q) { ext<R> z{}, w; for (std::size_t k = 0; k < R; ++k) { z[k] = up(q, k) ? n[k] - 1 : 0; w[k] = z[k]; } CHECK(vf::close(all[q](nidx<R>(z)), generic<R>(w)), "corner of child ", q); }
    }
}

template<std::size_t R> static void shapes(ctx& c, std::size_t hi)
{
    std::array<std::size_t, R> n;
    std::function<void(std::size_t)> rec = [&] (std::size_t k)
    {
        if (k < R) { for (n[k] = 1; n[k] <= hi; ++n[k]) rec(k + 1); return; }
        c.each([&] (auto& o) { o << "rank " << R << " block " << str<R>(n); }, [&]
        {
            axes<R>(c, n); children<R>(c, n);
            c.state(vf::hash(str<R>(n))); c.interesting(*std::max_element(n.begin(), n.end()) > 1);
        });
    };
    rec(0);
}

// nested refinement down and up again
template<std::size_t R> static void nested(ctx& c, std::size_t hi, std::size_t levels)
{
    for (std::size_t a = 1; a <= hi; ++a) for (std::size_t l = 1; l <= levels; ++l) for (std::size_t axis = 0; axis < R; ++axis)
        c.each([&] (auto& o) { o << "rank " << R << " side " << a << " axis " << axis << " levels " << l; }, [&]
        {
            ext<R> n; n.fill(2); n[axis] = a;
            auto A = make<R>(n, generic<R>);
            auto C = A; auto V = A;
            for (std::size_t k = 0; k < l; ++k) { C = C | mara::prolong_cells(axis) | nd::to_shared(); V = V | mara::prolong_verts(axis) | nd::to_shared(); }
            double lo = 1e9, hi = -1e9, flo = 1e9, fhi = -1e9;
            each_index<R>(n, [&] (auto& i) { lo = std::min(lo, generic<R>(i)); hi = std::max(hi, generic<R>(i)); });
            for (auto i : C.indexes()) { flo = std::min({flo, C(i)}); fhi = std::max({fhi, C(i)}); }
            for (auto i : V.indexes()) { flo = std::min({flo, V(i)}); fhi = std::max({fhi, V(i)}); }
            CHECK(flo >= lo - 1e-12 && fhi <= hi + 1e-12, "new extrema ", flo, " ", fhi);
            for (std::size_t k = 0; k < l; ++k) { C = C | mara::restrict_cells(axis) | nd::to_shared(); V = V | mara::restrict_verts(axis) | nd::to_shared(); }
            expect(C, n, generic<R>, "cells down and up"); expect(V, n, generic<R>, "vertices down and up");
            c.step(2 * l); c.interesting(l > 1);
        });
}

int main(int argc, char** argv)
{
    return vf::main(argc, argv, {
        {"rank-1", [] (ctx& c) { shapes<1>(c, c.pick(64, 200)); }},
        {"rank-2", [] (ctx& c) { shapes<2>(c, c.pick(14, 24)); }},
        {"rank-3", [] (ctx& c) { shapes<3>(c, c.pick(6, 9)); }},
        {"nested-1", [] (ctx& c) { nested<1>(c, 6, c.pick(4, 7)); }},
        {"nested-2", [] (ctx& c) { nested<2>(c, 5, c.pick(3, 5)); }},
        {"nested-3", [] (ctx& c) { nested<3>(c, 4, c.pick(3, 4)); }},
    });
}
