// C06: the adaptive mesh is balanced, gap-free and overlap-free, and blocks
// fetched at any address hold the data of the blocks that cover it.
#include "trees.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "core_dimensional.hpp"
#include "mesh_prolong_restrict.hpp"
#include "mesh_tree_operators.hpp"
#include <cmath>
using vf::ctx;
using ref::addr;
using ref::shape;
namespace amr = mara::amr_types;

// ---- reference: the smallest balanced mesh that contains a given one
static std::size_t depth_below(const shape<2>& s, const addr<2>& a) { std::size_t d = 0; for (auto& b : s.branches) if (b.inside(a)) d = std::max(d, b.level + 1 - a.level); return d; }
static bool needs_split(const shape<2>& s, const addr<2>& l)
{
    for (int k = 0; k < 2; ++k) for (long d : {-1, 1})
    {
        auto n = l.shifted(k, d);
        if (s.branches.count(n) && depth_below(s, n) > 1) return true;
    }
    return false;
}
static shape<2> balance(shape<2> s)
{
    for (bool more = true; more; )
    {
        more = false;
        for (auto& l : s.leaves()) if (needs_split(s, l)) { s.branches.insert(l); more = true; }
    }
    return s;
}
template<typename T> static shape<2> shape_of(const mara::arithmetic_binary_tree_t<T, 2>& t)
{
    shape<2> s;
    for (auto& i : ref::values(t.indexes())) for (auto a = addr<2>::of(i); a.level > 0; a = a.parent()) s.branches.insert(a.parent());
    return s;
}
// independent of the definition above: neighbouring leaves (sharing part of an
// edge, across the periodic boundary too) differ by at most one level
static bool two_to_one(const shape<2>& s)
{
    auto L = s.leaves();
    std::size_t D = s.depth();
    std::map<std::pair<std::size_t, std::size_t>, std::size_t> level;   // of each finest cell
    std::size_t n = std::size_t(1) << D;
    for (auto& l : L)
        for (std::size_t i = l.x[0] << (D - l.level); i < (l.x[0] + 1) << (D - l.level); ++i)
            for (std::size_t j = l.x[1] << (D - l.level); j < (l.x[1] + 1) << (D - l.level); ++j)
            {
                if (level.count({i, j})) vf::fail("blocks overlap");
                level[{i, j}] = l.level;
            }
    if (level.size() != n * n) vf::fail("the mesh has gaps");
    for (auto& e : level)
    {
        auto [i, j] = e.first;
        long a = e.second, b = level[{(i + 1) % n, j}], c = level[{i, (j + 1) % n}];
        if (std::labs(a - b) > 1 || std::labs(a - c) > 1) return false;
    }
    return true;
}

static amr::vertex_2d_shared_array_t verts_at(const addr<2>& a, std::size_t nx, std::size_t ny)
{
    double h = 2.0 / (1 << a.level);
    return nd::make_array([=] (auto i) { return amr::vertex_2d_t{-1 + h * (a.x[0] + double(i[0]) / nx), -1 + h * (a.x[1] + double(i[1]) / ny)}; }, nd::make_shape(nx + 1, ny + 1)) | nd::to_shared();
}
static void check_vertices(const amr::vertex_2d_tree_t& t, std::size_t nx, std::size_t ny)
{
    for (auto& p : ref::values(t.pair_indexes()))
    {
        auto a = addr<2>::of(p.first);
        auto v = p.second;
        auto w = verts_at(a, nx, ny);
        CHECK(v.shape() == w.shape(), "block ", a, " has ", v.shape(0), " x ", v.shape(1), " vertices");
        for (std::size_t i = 0; i <= nx; ++i) for (std::size_t j = 0; j <= ny; ++j)
            CHECK(vf::close(v(i, j)[0].value, w(i, j)[0].value) && vf::close(v(i, j)[1].value, w(i, j)[1].value), "block ", a, " vertex ", i, " ", j, " at ", v(i, j)[0].value, " ", v(i, j)[1].value);
    }
}

static void balancing(ctx& c, std::size_t depth, std::size_t branches, std::size_t nx, std::size_t ny)
{
    ref::trees<2>(depth, branches, [&] (const shape<2>& s)
    {
        c.each([&] (auto& o) { o << "mesh " << s.str() << " blocks " << nx << "x" << ny; }, [&]
        {
            auto t = ref::build(s).map([=] (const addr<2>& a) { return verts_at(a, nx, ny); });
            auto flags = ref::values(mara::over_refined_neighbors(t));
            auto L = s.leaves();
            CHECK(flags.size() == L.size(), "");
            for (std::size_t n = 0; n < L.size(); ++n) CHECK(flags[n] == needs_split(s, L[n]), "block ", L[n], " has over-refined neighbours: ", flags[n]);
            auto r = mara::ensure_valid_quadtree(t);
            auto got = shape_of(r), want = balance(s);
            CHECK(two_to_one(got), "not balanced: ", got.str());
            for (auto& b : s.branches) CHECK(got.branches.count(b), "block ", b, " is no longer refined");
            CHECK(got == want, "balanced mesh is ", got.str(), " instead of ", want.str());
            CHECK(! mara::over_refined_neighbors(r).any(), "");
            check_vertices(r, nx, ny);
            auto again = shape_of(mara::ensure_valid_quadtree(r));
            CHECK(again == got, "balancing a balanced mesh changes it");
            c.state(got.hash()); c.step(got.branches.size() - s.branches.size() + 1);
            c.interesting(! (got == s));
        });
    });
}

// every criterion: at each level, all thresholds between the distinct block radii
static void creation(ctx& c, std::size_t depth, const std::vector<std::pair<std::size_t, std::size_t>>& sizes, bool outside)
{
    std::vector<double> cuts = {-1.0, 0.2, 0.6, 0.75, 0.85, 0.95, 1.1, 9.0};
    std::vector<double> cut(depth);
    std::function<void(std::size_t)> rec = [&] (std::size_t l)
    {
        if (l < depth) { for (auto x : cuts) { cut[l] = x; rec(l + 1); } return; }
        for (auto [nx, ny] : sizes)
            c.each([&, nx = nx, ny = ny] (auto& o) { o << (outside ? "outside" : "inside") << " radii"; for (auto x : cut) o << " " << x; o << " blocks " << nx << "x" << ny; }, [&, nx = nx, ny = ny]
            {
                auto pred = [&] (std::size_t level, double r) { return outside ? r > cut.at(level) : r < cut.at(level); };
                shape<2> s;
                for (std::size_t l = 0; l < depth; ++l)
                    for (auto& a : s.leaves())
                    {
                        double h = 1.0 / (1 << a.level), x = -1 + h * (2 * a.x[0] + 1), y = -1 + h * (2 * a.x[1] + 1);
                        if (pred(l, std::sqrt(x * x + y * y))) s.branches.insert(a);
                    }
                auto t = mara::create_vertex_quadtree(pred, nx, ny, depth);
                auto got = shape_of(t), want = balance(s);
                CHECK(two_to_one(got), "not balanced: ", got.str());
                CHECK(got == want, "mesh is ", got.str(), " instead of ", want.str());
                check_vertices(t, nx, ny);
                if (nx == ny) CHECK(shape_of(mara::create_vertex_quadtree(pred, nx, depth)) == want, "square blocks");
                c.state(got.hash()); c.step(); c.interesting(got.branches.size() > 0);
            });
    };
    rec(0);
}

// ---- fetching blocks
template<std::size_t R> using block = std::map<std::array<std::size_t, R>, double>;   // reference block: cell -> value
template<std::size_t R, typename F> static void cells(const std::array<std::size_t, R>& n, F&& f)
{
    std::array<std::size_t, R> i{};
    std::function<void(std::size_t)> rec = [&] (std::size_t k) { if (k == R) { f(i); return; } for (i[k] = 0; i[k] < n[k]; ++i[k]) rec(k + 1); };
    rec(0);
}
template<std::size_t R> static double cell_label(const addr<R>& a, const std::array<std::size_t, R>& i)
{
    double v = 1 + a.level;
    for (std::size_t k = 0; k < R; ++k) v = v * 7.25 + 0.5 * a.x[k] + 1.75 * i[k] * (k + 1);
    return std::fmod(v, 101.0);
}
// the cell value covering, or averaged over, cell i of the block at a
template<std::size_t R> static double cell_value(const shape<R>& s, const std::array<std::size_t, R>& n, const addr<R>& a, const std::array<std::size_t, R>& i)
{
    if (s.is_leaf(a)) return cell_label<R>(a, i);
    if (s.branches.count(a))
    {
        double sum = 0;
        for (std::size_t q = 0; q < (1u << R); ++q)
        {
            addr<R> ch = a; ch.level++;
            std::array<std::size_t, R> j;
            for (std::size_t k = 0; k < R; ++k)
            {
                std::size_t f = 2 * i[k] + ((q >> k) & 1);
                ch.x[k] = 2 * a.x[k] + f / n[k]; j[k] = f % n[k];
            }
            sum += cell_value<R>(s, n, ch, j);
        }
        return sum / (1 << R);
    }
    std::array<std::size_t, R> j;
    for (std::size_t k = 0; k < R; ++k) j[k] = ((a.x[k] % 2) * n[k] + i[k]) / 2;
    return cell_value<R>(s, n, a.parent(), j);
}
template<std::size_t R> static double vert_fn(const addr<R>& a, const std::array<std::size_t, R>& i, const std::array<std::size_t, R>& n)
{
    double v = 0.3;   // a linear function of position
    for (std::size_t k = 0; k < R; ++k) v += (k + 1.5) * (a.x[k] + double(i[k]) / n[k]) / (1 << a.level);
    return v;
}
template<std::size_t R> static nd::shape_t<R> nshape(const std::array<std::size_t, R>& n, std::size_t extra=0) { nd::shape_t<R> s; for (std::size_t k = 0; k < R; ++k) s[k] = n[k] + extra; return s; }
template<std::size_t R> static std::array<std::size_t, R> arr(const nd::index_t<R>& i) { std::array<std::size_t, R> a; for (std::size_t k = 0; k < R; ++k) a[k] = i[k]; return a; }
template<std::size_t R> static nd::index_t<R> nidx(const std::array<std::size_t, R>& a) { nd::index_t<R> i; for (std::size_t k = 0; k < R; ++k) i[k] = a[k]; return i; }

template<std::size_t R>
static void fetching(ctx& c, std::size_t depth, std::size_t branches, const std::array<std::size_t, R>& n)
{
    ref::trees<R>(depth, branches, [&] (const shape<R>& s)
    {
        c.each([&] (auto& o) { o << "rank " << R << " mesh " << s.str() << " blocks"; for (auto k : n) o << " " << k; }, [&]
        {
            auto t = ref::build(s).map([=] (const addr<R>& a) { return nd::make_array([=] (auto i) { return cell_label<R>(a, arr<R>(i)); }, nshape<R>(n)) | nd::to_shared(); });
            auto v = ref::build(s).map([=] (const addr<R>& a) { return nd::make_array([=] (auto i) { return vert_fn<R>(a, arr<R>(i), n); }, nshape<R>(n, 1)) | nd::to_shared(); });
            std::set<addr<R>> targets;
            for (auto& l : s.leaves())
            {
                targets.insert(l);
                for (std::size_t q = 0; q < (1u << R); ++q) targets.insert(l.child(q));
                for (std::size_t k = 0; k < R; ++k) { targets.insert(l.shifted(k, 1)); targets.insert(l.shifted(k, -1)); }
            }
            for (auto& b : s.branches) targets.insert(b);
            for (auto& a : targets)
            {
                // the mesh holds the block, its parent, or something below it
                bool reach = s.branches.count(a) || s.is_leaf(a) || (a.level > 0 && s.is_leaf(a.parent()));
                c.step();
                if (! reach)
                {
                    CHECK(vf::throws_as<std::invalid_argument>([&] { mara::get_cell_block(t, a.index()); }), "block ", a, " two levels below a leaf is made up");
                    continue;
                }
                auto b = mara::get_cell_block(t, a.index());
                CHECK(b.shape() == nshape<R>(n), "shape of block ", a);
                cells<R>(n, [&] (auto& i) { double w = cell_value<R>(s, n, a, i); CHECK(vf::close(b(nidx<R>(i)), w, 1e-12, 1e-12), "block ", a, " cell ", i[0], " ", i[R - 1], ": ", b(nidx<R>(i)), " instead of ", w); });
                // with a selection applied to the block
                auto sel = mara::get_cell_block(t, a.index(), [] (auto x) { return x | nd::select_axis(R - 1).from(0).to(1) | nd::to_shared(); });
                CHECK(sel.shape(R - 1) == 1, "selected shape");
                cells<R>(n, [&] (auto& i) { if (i[R - 1] == 0) CHECK(sel(nidx<R>(i)) == b(nidx<R>(i)), "selection"); });
                if constexpr (R < 3)
                {
                    auto g = mara::get_vertex_block(v, a.index());
                    CHECK(g.shape() == nshape<R>(n, 1), "shape of vertex block ", a);
                    auto m = n; for (auto& x : m) ++x;
                    cells<R>(m, [&] (auto& i) { double w = vert_fn<R>(a, i, n); CHECK(vf::close(g(nidx<R>(i)), w, 1e-12, 1e-12), "block ", a, " vertex ", i[0], " ", i[R - 1], ": ", g(nidx<R>(i)), " instead of ", w); });
                }
            }
            c.state(vf::mix(s.hash(), R * 100 + n[0])); c.interesting(s.branches.size() > 1);
        });
    });
}

int main(int argc, char** argv)
{
    return vf::main(argc, argv, {
        {"balance", [] (ctx& c) { balancing(c, 3, c.pick(4, 6), 2, 2); balancing(c, c.pick(5, 7), c.pick(6, 7), 1, 2); balancing(c, 2, 5, 3, 1); }},
        {"create", [] (ctx& c) { creation(c, 1, {{1, 1}, {2, 4}, {3, 3}}, false); creation(c, 2, {{2, 2}, {2, 4}, {5, 3}}, false); creation(c, 3, {{2, 2}}, false); if (c.thorough()) creation(c, 4, {{1, 1}}, false); }},
        {"create-outside", [] (ctx& c) { creation(c, 2, {{2, 2}, {2, 4}}, true); creation(c, 3, {{1, 1}}, true); }},
        {"fetch-1", [] (ctx& c) { fetching<1>(c, 4, 15, {2}); fetching<1>(c, 3, 7, {4}); fetching<1>(c, 3, 7, {6}); }},
        {"fetch-2", [] (ctx& c) { fetching<2>(c, 2, 5, {2, 2}); fetching<2>(c, 2, 5, {2, 4}); fetching<2>(c, 2, 5, {4, 2}); fetching<2>(c, 3, c.pick(5, 6), {2, 2}); fetching<2>(c, 2, 5, {4, 6}); }},
        {"fetch-3", [] (ctx& c) { fetching<3>(c, 2, c.pick(3, 4), {2, 2, 2}); fetching<3>(c, 2, 2, {2, 4, 6}); }},
    });
}
