// C03: partitions of index spaces are exact tilings; iteration over a region
// visits exactly its members, once, in row-major order.
#include "vf.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "app_parallel.hpp"

using vf::ctx;
template<std::size_t R> using idx = std::vector<std::size_t>;

template<std::size_t R> std::vector<std::size_t> vec(const nd::index_t<R>& i) { return {i.begin(), i.end()}; }
template<std::size_t R> std::vector<std::size_t> vec(const nd::shape_t<R>& i) { return {i.begin(), i.end()}; }
static std::string str(const std::vector<std::size_t>& v) { std::string s = "("; for (auto x : v) s += std::to_string(x) + " "; return s + ")"; }

// reference: all members of a region, in row-major order
template<std::size_t R>
std::vector<std::vector<std::size_t>> members(const nd::access_pattern_t<R>& p)
{
    std::vector<std::vector<std::size_t>> result = {{}};
    for (std::size_t a = 0; a < R; ++a)
    {
        std::vector<std::vector<std::size_t>> next;
        for (auto& m : result)
            for (std::size_t i = p.start[a]; i < p.final[a]; i += p.jumps[a]) { auto k = m; k.push_back(i); next.push_back(k); }
        result = next;
    }
    return result;
}

template<std::size_t R>
std::vector<std::vector<std::size_t>> visits(const nd::access_pattern_t<R>& p, std::size_t limit)
{
    std::vector<std::vector<std::size_t>> result;
    for (auto i : p)
    {
        result.push_back(vec<R>(i));
        if (result.size() > limit) vf::fail(vf::cat("iteration exceeds ", limit, " visits"));
    }
    return result;
}

template<std::size_t R, typename F>
void tuples(std::size_t lo, std::size_t hi, F&& f)
{
    std::vector<std::size_t> v(R, lo);
    for (;;)
    {
        f(v);
        int n = R - 1;
        while (n >= 0 && ++v[n] > hi) v[n--] = lo;
        if (n < 0) return;
    }
}
template<std::size_t R> nd::index_t<R> to_index(const std::vector<std::size_t>& v) { return nd::index_t<R>::from_range(v); }
template<std::size_t R> nd::shape_t<R> to_shape(const std::vector<std::size_t>& v) { return nd::shape_t<R>::from_range(v); }

template<std::size_t R>
void regions(ctx& c, std::size_t extent, std::size_t maxjump)
{
    tuples<R>(0, extent, [&] (auto s) { tuples<R>(0, extent, [&] (auto f) {
        for (std::size_t a = 0; a < R; ++a) if (f[a] < s[a]) return;
        tuples<R>(1, maxjump, [&] (auto j) {
            c.each([&] (auto& o) { o << "region start " << str(s) << " final " << str(f) << " jumps " << str(j); }, [&]
            {
                auto p = nd::access_pattern_t<R>().with_start(to_index<R>(s)).with_final(to_index<R>(f)).with_jumps(nd::jumps_t<R>::from_range(j));
                auto want = members(p);
                auto got = visits(p, want.size() + 4);
                CHECK(got == want, "visited ", got.size(), " of ", want.size());
                CHECK(p.size() == want.size(), "size ", p.size());
                CHECK(p.empty() == want.empty(), "empty");
                std::size_t vol = 1;
                for (std::size_t a = 0; a < R; ++a)
                {
                    std::size_t n = (f[a] - s[a] + j[a] - 1) / j[a];
                    CHECK(p.shape()[a] == n, "axis ", a, " extent ", p.shape()[a], " instead of ", n);
                    vol *= n;
                }
                CHECK(vol == want.size(), "");
                // membership, in both index spaces
                tuples<R>(0, extent + 1, [&] (auto q)
                {
                    bool in = std::find(want.begin(), want.end(), q) != want.end();
                    CHECK(p.generates(to_index<R>(q)) == in, "generates ", str(q));
                    bool valid = true;
                    for (std::size_t a = 0; a < R; ++a) if (q[a] >= p.shape()[a]) valid = false;
                    CHECK(p.contains(to_index<R>(q)) == valid, "contains ", str(q));
                    if (valid)
                    {
                        auto m = p.map_index(to_index<R>(q));
                        CHECK(std::find(want.begin(), want.end(), vec<R>(m)) != want.end(), "map_index leaves the region");
                        CHECK(vec<R>(p.inverse_map_index(m)) == q, "inverse_map_index");
                    }
                });
                // containment in a parent shape
                tuples<R>(0, extent + 1, [&] (auto q)
                {
                    bool all = true, startin = true;
                    for (auto& m : want) for (std::size_t a = 0; a < R; ++a) if (m[a] >= q[a]) all = false;
                    for (std::size_t a = 0; a < R; ++a) if (s[a] > q[a]) startin = false;
                    if (want.size()) CHECK(p.within(to_shape<R>(q)) == all, "within ", str(q));
                    (void) startin;
                });
                c.interesting(want.size() > 1);
            });
        });
    }); });
}

template<std::size_t N, std::size_t R>
void partition_one(ctx& c, const std::vector<std::size_t>& s)
{
    c.each([&] (auto& o) { o << "partition shape " << str(s) << " into " << N; }, [&]
    {
        auto shape = to_shape<R>(s);
        auto parts = nd::partition_shape<N>(shape);
        CHECK(parts.size() == N, "");
        std::map<std::vector<std::size_t>, int> hits;
        std::size_t lo = -1, hi = 0, total = 0;
        for (auto& p : parts)
        {
            auto v = visits(p, shape.volume() + 4);
            CHECK(v.size() == p.size(), "size");
            total += v.size();
            for (auto& i : v) ++hits[i];
            std::size_t n = p.final[0] - p.start[0];
            lo = std::min(lo, n); hi = std::max(hi, n);
        }
        CHECK(total == shape.volume(), "covers ", total);
        CHECK(hits.size() == shape.volume(), "distinct ", hits.size());
        for (auto& h : hits) { CHECK(h.second == 1, "visited twice"); CHECK(shape.contains(to_index<R>(h.first)), "outside"); }
        CHECK(hi - lo <= 1, "uneven ", lo, " ", hi);
        c.interesting(N > 1 && total > 0);
    });
}
template<std::size_t N>
void partition_n(ctx& c)
{
    for (std::size_t n = 0; n <= c.pick<std::size_t>(26, 80); ++n) partition_one<N, 1>(c, {n});
    tuples<2>(0, c.pick<std::size_t>(9, 18), [&] (auto s) { if (s[1] <= 5) partition_one<N, 2>(c, s); });
    tuples<3>(0, c.pick<std::size_t>(4, 7), [&] (auto s) { if (s[1] <= 4) partition_one<N, 3>(c, s); });
}

static void divvy(ctx& c)
{
    for (int n = 0; n <= c.pick(60, 260); ++n) for (int g = 1; g <= c.pick(24, 70); ++g)
        c.each([&] (auto& o) { o << "divvy " << n << " elements into " << g << " groups"; }, [&]
        {
            auto groups = nd::arange(n) | nd::map([] (auto i) { return 1000 + 7 * int(i); }) | nd::divvy(g);
            CHECK((int) groups.size() == g, "groups ", groups.size());
            std::vector<int> all; std::size_t lo = -1, hi = 0;
            for (auto grp : groups)
            {
                std::size_t k = 0;
                for (auto x : grp) { all.push_back(x); ++k; }
                CHECK(k == grp.size(), "group size");
                lo = std::min(lo, k); hi = std::max(hi, k);
            }
            CHECK((int) all.size() == n, "union has ", all.size());
            for (int i = 0; i < n; ++i) CHECK(all[i] == 1000 + 7 * i, "element ", i);
            CHECK(hi - lo <= 1, "uneven");
            c.interesting(g > 1 && n > 0);
        });
}

template<std::size_t R>
void propose(ctx& c)
{
    for (int n = 1; n <= c.pick(3000, 40000); ++n)
        c.each([&] (auto& o) { o << "propose rank " << R << " for " << n; }, [&]
        {
            auto s = mara::propose_block_decomposition<R>(n);
            std::size_t v = 1;
            for (std::size_t a = 0; a < R; ++a) { CHECK(s[a] >= 1, "axis without blocks"); v *= s[a]; }
            CHECK(v == (std::size_t) n, "volume ", v);
            c.interesting(n > 1);
        });
}

template<std::size_t R>
void decompose(ctx& c, std::size_t extent, std::size_t blocks)
{
    tuples<R>(1, extent, [&] (auto s) { tuples<R>(1, blocks, [&] (auto b) {
        c.each([&] (auto& o) { o << "decompose " << str(s) << " into blocks " << str(b); }, [&]
        {
            bool toomany = false;
            for (std::size_t a = 0; a < R; ++a) if (b[a] > s[a]) toomany = true;
            if (toomany)
            {
                CHECK(vf::throws([&] { mara::create_access_pattern_array(to_shape<R>(s), to_shape<R>(b)); }), "too many blocks accepted");
                return;
            }
            auto A = mara::create_access_pattern_array(to_shape<R>(s), to_shape<R>(b));
            CHECK(vec<R>(A.shape()) == b, "block array shape");
            std::map<std::vector<std::size_t>, int> hits;
            std::size_t vol = 1;
            for (std::size_t a = 0; a < R; ++a) vol *= s[a];
            std::vector<std::size_t> lo(R, -1), hi(R, 0);
            std::size_t nblocks = 0;
            tuples<R>(0, blocks - 1, [&] (auto q)
            {
                bool in = true;
                for (std::size_t a = 0; a < R; ++a) if (q[a] >= b[a]) in = false;
                if (!in) { CHECK(vf::throws([&] { A(to_index<R>(q)); }), "block ", str(q), " outside the decomposition is not refused"); return; }
                auto p = A(to_index<R>(q));
                ++nblocks;
                CHECK(!p.empty(), "empty block");
                for (auto& i : visits(p, vol + 4)) ++hits[i];
                for (std::size_t a = 0; a < R; ++a)
                {
                    std::size_t n = p.final[a] - p.start[a];
                    lo[a] = std::min(lo[a], n); hi[a] = std::max(hi[a], n);
                    // neighbours in the block grid are neighbours in space
                    if (q[a] == 0) CHECK(p.start[a] == 0, "first block starts at ", p.start[a]);
                    if (q[a] + 1 == b[a]) CHECK(p.final[a] == s[a], "last block ends at ", p.final[a]);
                    if (q[a] + 1 < b[a]) { auto r = q; ++r[a]; CHECK(A(to_index<R>(r)).start[a] == p.final[a], "gap or overlap between adjacent blocks"); }
                }
            });
            CHECK(hits.size() == vol, "covered ", hits.size(), " of ", vol);
            for (auto& h : hits) CHECK(h.second == 1, "overlap at ", str(h.first));
            for (std::size_t a = 0; a < R; ++a) CHECK(hi[a] - lo[a] <= 1, "uneven");
            c.interesting(nblocks > 1);
        });
    }); });
}

template<std::size_t R>
void array_iteration(ctx& c, std::size_t extent)
{
    tuples<R>(0, extent, [&] (auto s) {
        c.each([&] (auto& o) { o << "array of shape " << str(s); }, [&]
        {
            auto A = nd::index_array(to_shape<R>(s));
            auto ref = members(nd::access_pattern_t<R>().with_final(to_index<R>(s)));
            std::vector<std::vector<std::size_t>> got, got2;
            for (auto x : A) { got.push_back(vec<R>(x)); CHECK(got.size() <= ref.size(), "too many elements"); }
            for (auto i : A.indexes()) { got2.push_back(vec<R>(i)); CHECK(got2.size() <= ref.size(), "too many indexes"); }
            CHECK(got == ref, "elements"); CHECK(got2 == ref, "indexes");
            CHECK(A.size() == ref.size(), "size");
            auto S = A.shared();
            CHECK(S.size() == ref.size() && vec<R>(S.shape()) == s, "memory-backed shape");
            for (std::size_t n = 0; n < ref.size(); ++n) CHECK(vec<R>(S.data()[n]) == ref[n], "memory order at ", n);
            CHECK(vec<R>(to_shape<R>(s).last_index()) == s, "");
            auto strides = nd::make_strides_row_major(to_shape<R>(s));
            for (std::size_t n = 0; n < ref.size(); ++n) CHECK(strides.compute_offset(to_index<R>(ref[n])) == n, "offset");
            c.interesting(ref.size() > 1);
        });
    });
}

static void ranges(ctx& c)
{
    int m = c.pick(9, 16);
    for (int a = 0; a <= m; ++a) for (int b = 0; b <= m; ++b) for (int s = -5; s <= 5; ++s)
        c.each([&] (auto& o) { o << "arange(" << a << ", " << b << ", " << s << ")"; }, [&]
        {
            if (s == 0) { CHECK(vf::throws([&] { nd::arange(a, b, s); }), "zero step accepted"); return; }
            std::vector<long> want;
            if (s > 0) for (int x = a; x < b; x += s) want.push_back(x); else for (int x = a; x > b; x += s) want.push_back(x);
            bool wrong_way = (b - a) * s < 0;
            if (wrong_way) { try { CHECK(nd::arange(a, b, s).size() == 0, "elements in a backward range"); } catch (const std::exception&) {} return; }
            auto A = nd::arange(a, b, s);
            CHECK(A.size() == want.size(), "count ", A.size(), " instead of ", want.size());
            std::size_t n = 0;
            for (auto x : A) { CHECK(long(x) == want[n], "element ", n); ++n; }
            c.interesting(n > 1);
        });
    for (int n = 0; n <= 40; ++n)
        c.each([&] (auto& o) { o << "arange(" << n << ")"; }, [&]
        {
            auto A = nd::arange(n); CHECK((int) A.size() == n, "");
            int k = 0; for (auto x : A) CHECK((int) x == k++, ""); CHECK(k == n, "");
        });
    for (double x0 : {-2.0, 0.0, 1.0, 1e6}) for (double x1 : {-1.0, 0.0, 3.0, 1e6 + 1}) for (int n = 1; n <= 24; ++n)
        c.each([&] (auto& o) { o << "linspace(" << x0 << ", " << x1 << ", " << n << ")"; }, [&]
        {
            auto A = nd::linspace(x0, x1, n);
            CHECK((int) A.size() == n, "");
            for (int i = 0; i < n; ++i)
            {
                double want = n == 1 ? x0 : (x0 * (n - 1 - i) + x1 * i) / (n - 1);
                CHECK(vf::close(A(i), want, 1e-13, 1e-13), "element ", i, " is ", A(i));
            }
            c.interesting(n > 1);
        });
}

static void volumes(ctx& c)
{
    std::vector<std::size_t> e = {0, 1, 2, 3, 1000, 46341, 65535, 65536, 2147483647u};
    for (auto a : e) for (auto b : e)
    {
        c.each([&] (auto& o) { o << "volume " << a << " x " << b; }, [&] { CHECK(nd::make_shape(a, b).volume() == a * b, ""); CHECK(nd::index_array(a, b).size() == a * b, ""); c.interesting(); });
        for (auto d : {0u, 1u, 2u, 1000u}) c.each([&] (auto& o) { o << "volume " << a << " x " << b << " x " << d; }, [&]
        {
            unsigned __int128 v = (unsigned __int128) a * b * d;
            if (v >> 63) return;
            CHECK(nd::make_shape(a, b, d).volume() == (std::size_t) v, "");
        });
    }
}

int main(int argc, char** argv)
{
    return vf::main(argc, argv, {
        {"regions-1d", [] (ctx& c) { regions<1>(c, c.pick(12, 24), c.pick(6, 9)); }},
        {"regions-2d", [] (ctx& c) { regions<2>(c, c.pick(4, 5), 3); }},
        {"regions-3d", [] (ctx& c) { regions<3>(c, 2, c.pick(2, 3)); }},
        {"partition-1", partition_n<1>}, {"partition-2", partition_n<2>}, {"partition-3", partition_n<3>}, {"partition-4", partition_n<4>},
        {"partition-5", partition_n<5>}, {"partition-7", partition_n<7>}, {"partition-8", partition_n<8>}, {"partition-12", partition_n<12>}, {"partition-16", partition_n<16>},
        {"divvy", divvy},
        {"propose-1", propose<1>}, {"propose-2", propose<2>}, {"propose-3", propose<3>}, {"propose-4", propose<4>},
        {"decompose-1", [] (ctx& c) { decompose<1>(c, c.pick(40, 120), c.pick(20, 60)); }},
        {"decompose-2", [] (ctx& c) { decompose<2>(c, c.pick(7, 10), c.pick(5, 7)); }},
        {"decompose-3", [] (ctx& c) { decompose<3>(c, c.pick(4, 5), c.pick(3, 4)); }},
        {"iteration-1", [] (ctx& c) { array_iteration<1>(c, 40); }},
        {"iteration-2", [] (ctx& c) { array_iteration<2>(c, c.pick(7, 14)); }},
        {"iteration-3", [] (ctx& c) { array_iteration<3>(c, c.pick(4, 6)); }},
        {"iteration-4", [] (ctx& c) { array_iteration<4>(c, c.pick(2, 3)); }},
        {"ranges", ranges},
        {"volumes", volumes},
    });
}
