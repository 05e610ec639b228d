// C02: threaded evaluation against serial evaluation, for every shape, tree and
// thread count within bounds (the schedules are explored by mc/mc_par.cpp).
#include "vf.hpp"
#include "trees.hpp"
#include "core_thread_pool.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "app_parallel.hpp"
#include <atomic>
#include <memory>

using vf::ctx;
struct marker : std::runtime_error { int n; marker(int n) : std::runtime_error("marker"), n(n) {} };

template<std::size_t R> static std::size_t linear(const nd::shape_t<R>& s, const nd::index_t<R>& i) { std::size_t m = 0; for (std::size_t a = 0; a < R; ++a) m = m * s[a] + i[a]; return m; }

template<std::size_t N, std::size_t R>
static void array_case(ctx& c, const std::vector<std::size_t>& e)
{
    auto s = nd::shape_t<R>::from_range(e);
    c.each([&] (auto& o) { o << N << " threads, shape"; for (auto x : e) o << " " << x; }, [&]
    {
        std::size_t vol = 1; for (auto x : e) vol *= x;
        std::unique_ptr<std::atomic<int>[]> n(new std::atomic<int>[vol + 1]);
        for (std::size_t i = 0; i <= vol; ++i) n[i] = 0;
        auto A = nd::make_array([&n, s] (nd::index_t<R> i) { auto m = linear<R>(s, i); ++n[m]; return std::vector<std::size_t>{m, m * m}; }, s);
        auto B = A | mara::evaluate_on<N>();
        CHECK(B.shape() == s, "shape");
        CHECK(B.size() == vol, "size");
        for (std::size_t i = 0; i < vol; ++i) CHECK(n[i] == 1, "element ", i, " evaluated ", n[i], " times");
        nd::index_t<R> i;
        std::size_t m = 0;
        std::function<void(std::size_t)> walk = [&] (std::size_t a)
        {
            if (a == R) { auto v = B(i); CHECK(v.size() == 2 && v[0] == m && v[1] == m * m, "element ", m); ++m; return; }
            for (i[a] = 0; i[a] < e[a]; ++i[a]) walk(a + 1);
        };
        walk(0);
        // in place of a serial evaluation
        auto C = nd::make_array([s] (nd::index_t<R> i) { return 1.0 / (1 + linear<R>(s, i)); }, s);
        auto P = C | mara::evaluate_on<N>();
        auto Q = C | nd::to_shared();
        CHECK(P.shape() == Q.shape(), "");
        if (vol) CHECK((P == Q) | nd::all(), "differs from the serial result");
        // an exception for one element (first, last, middle) arrives
        for (std::size_t bad : {std::size_t(0), vol / 2, vol - 1})
        {
            if (! vol) break;
            auto X = nd::make_array([s, bad] (nd::index_t<R> i) -> int { auto m = linear<R>(s, i); if (m == bad) throw marker(m); return m; }, s);
            int got = -1;
            try { auto Y = X | mara::evaluate_on<N>(); (void) Y; } catch (const marker& e) { got = e.n; }
            CHECK(got == int(bad), "exception of element ", bad, " arrives as ", got);
        }
        c.interesting(vol > 1 && N > 1);
        c.state(vf::mix(vf::hash(vf::cat(R, " ", N)), vf::hash(vf::cat(e[0], ",", e[R > 1], ",", e[R > 2 ? 2 : 0]))));
        c.step(vol);
    });
}
template<std::size_t N> static void arrays(ctx& c)
{
    for (std::size_t i = 0; i <= c.pick(40, 120); ++i) array_case<N, 1>(c, {i});
    for (std::size_t i = 0; i <= c.pick(9, 16); ++i) for (std::size_t j = 0; j <= c.pick(6, 12); ++j) array_case<N, 2>(c, {i, j});
    for (std::size_t i = 0; i <= c.pick(3, 6); ++i) for (std::size_t j = 0; j <= c.pick(3, 5); ++j) for (std::size_t k = 0; k <= c.pick(3, 5); ++k) array_case<N, 3>(c, {i, j, k});
}

template<std::size_t R>
static void tree_cases(ctx& c, std::size_t depth, std::size_t branches)
{
    ref::trees<R>(depth, branches, [&] (const ref::shape<R>& s)
    {
        for (int mode = 0; mode < 7; ++mode)   // pools of 1-4 threads, async, deferred, a pool used twice
        {
            c.each([&] (auto& o) { o << "rank " << R << " tree " << s.str() << (mode < 4 ? " pool of " : " mode ") << mode + 1; }, [&]
            {
                auto L = s.leaves();
                std::map<ref::addr<R>, int> num;
                for (auto& l : L) { int k = num.size(); num[l] = k; }
                auto t = ref::build(s);
                std::vector<std::atomic<int>> n(L.size());
                std::unique_ptr<mara::thread_pool_t> pool;   // destroyed first: its tasks refer to num and n
                if (mode < 4) pool.reset(new mara::thread_pool_t(mode + 1));
                if (mode == 6) pool.reset(new mara::thread_pool_t(2));
                auto run = [&] (auto& tree, auto f) { return mode == 4 ? tree.map(f, std::launch::async) : mode == 5 ? tree.map(f, std::launch::deferred) : tree.map(f, *pool); };
                auto f = [&num, &n] (const ref::addr<R>& a) { int k = num.at(a); ++n[k]; return std::vector<int>{k, -k}; };
                auto u = run(t, f);
                auto v = ref::values(u);
                CHECK(v.size() == L.size() && u.size() == L.size() && u.depth() == s.depth(), "leaves: ", v.size(), " of ", L.size());
                for (std::size_t k = 0; k < v.size(); ++k)
                {
                    CHECK((v[k] == std::vector<int>{int(k), -int(k)}), "leaf ", k);
                    CHECK(n[k] == 1, "leaf ", k, " evaluated ", n[k], " times");
                    CHECK(u.at(L[k].index()) == v[k], "address of leaf ", k);
                }
                CHECK((ref::values(t) == L), "source changed");
                auto p = t.pair(u);
                auto g = [] (const ref::addr<R>& a, const std::vector<int>& w) { return std::make_pair(a, w[0]); };
                auto q = mode == 4 ? p.apply(g, std::launch::async) : mode == 5 ? p.apply(g, std::launch::deferred) : p.apply(g, *pool);
                auto w = ref::values(q);
                CHECK(w.size() == L.size(), "");
                for (std::size_t k = 0; k < w.size(); ++k) CHECK(w[k].first == L[k] && w[k].second == int(k), "pair ", k);
                for (std::size_t bad = 0; bad < L.size(); bad += (L.size() > 8 ? L.size() - 1 : 1))
                {
                    int got = -1;
                    auto h = [&num, bad] (const ref::addr<R>& a) -> int { int k = num.at(a); if (k == int(bad)) throw marker(k); return k; };
                    try { run(t, h); } catch (const marker& e) { got = e.n; }
                    CHECK(got == int(bad), "exception of leaf ", bad, " arrives as ", got);
                    CHECK((ref::values(run(t, [&num] (const ref::addr<R>& a) { return num.at(a); })).size() == L.size()), "after an exception");
                }
                c.interesting(L.size() > 1);
                c.state(vf::mix(s.hash(), mode));
                c.step(L.size());
            });
        }
    });
}

int main(int argc, char** argv)
{
    return vf::main(argc, argv, {
        {"array-1", arrays<1>}, {"array-2", arrays<2>}, {"array-3", arrays<3>}, {"array-4", arrays<4>},
        {"array-5", arrays<5>}, {"array-7", arrays<7>}, {"array-8", arrays<8>}, {"array-12", arrays<12>},
        {"tree-1", [] (ctx& c) { tree_cases<1>(c, c.pick(3, 4), c.pick(5, 9)); }},
        {"tree-2", [] (ctx& c) { tree_cases<2>(c, 2, 5); tree_cases<2>(c, 3, 3); }},
        {"tree-3", [] (ctx& c) { tree_cases<3>(c, 2, c.pick(3, 5)); }},
    });
}
