// C02: parallel evaluation gives the serial result under every schedule.
#include "mcrt.hpp"
#include "core_thread_pool.hpp"
#include "core_tree.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "app_parallel.hpp"
#include <stdexcept>
#include <string>
#include <vector>

#define REQUIRE(c) do { if (!(c)) mcrt::fail(std::string("required: ") + #c + " (" + __func__ + ")"); } while (0)

template<std::size_t R> using tree = mara::arithmetic_binary_tree_t<int, R>;

template<typename T> std::vector<T> leaves(const mara::arithmetic_binary_tree_t<T, 1>& t) { std::vector<T> v; t.sink([&] (const T& x) { v.push_back(x); }); return v; }
template<typename T> std::vector<T> leaves(const mara::arithmetic_binary_tree_t<T, 2>& t) { std::vector<T> v; t.sink([&] (const T& x) { v.push_back(x); }); return v; }

// trees with 1, 2, 3 (one-sided) and 4 leaves
static tree<1> tree1(int leaves)
{
    auto split = [] (int v) { return mara::make_sequence(2 * v, 2 * v + 1); };
    auto t = mara::tree_of<1>(1);
    if (leaves >= 2) t = t.bifurcate_all(split);
    if (leaves == 3) t = t.bifurcate_if([] (int v) { return v == 2; }, split);
    if (leaves == 4) t = t.bifurcate_all(split);
    return t;
}

struct Count { int n[16] = {}; };

template<typename Map> void tree_map(int n, Map&& map)
{
    Count count;
    auto t = tree1(n);
    auto fn = [&count] (int v) { ++count.n[v]; return std::vector<int>{v, v * v}; };
    auto r = map(t, fn);
    auto want = leaves(t);
    auto got = leaves(r);
    REQUIRE(got.size() == want.size() && r.size() == t.size() && r.depth() == t.depth());
    for (std::size_t i = 0; i < want.size(); ++i)
    {
        REQUIRE(got[i].size() == 2 && got[i][0] == want[i] && got[i][1] == want[i] * want[i]);
        REQUIRE(count.n[want[i]] == 1);
    }
}
static void pool_map(int workers, int n) { mara::thread_pool_t pool(workers); tree_map(n, [&] (auto& t, auto& f) { return t.map(f, pool); }); }
static void async_map(int n, std::launch mode) { tree_map(n, [&] (auto& t, auto& f) { return t.map(f, mode); }); }

// two evaluations share a pool, the second reads what the first produced
static void pool_chain(int workers, int n)
{
    mara::thread_pool_t pool(workers);
    auto t = tree1(n);
    auto a = t.map([] (int v) { return std::string(20, 'a' + v); }, pool);
    auto b = a.pair(t).apply([] (std::string s, int v) { return s + std::to_string(v); }, pool);
    auto want = leaves(t); auto got = leaves(b);
    for (std::size_t i = 0; i < want.size(); ++i) REQUIRE(got[i] == std::string(20, 'a' + want[i]) + std::to_string(want[i]));
    REQUIRE(got.size() == want.size());
}
// the tasks read one shared, immutable structure
static void pool_shared_input(int workers, int n)
{
    mara::thread_pool_t pool(workers);
    auto t = tree1(n);
    auto table = nd::linspace(0.0, 15.0, 16) | nd::to_shared();
    auto r = t.map([table, t] (int v) { auto a = table | nd::map([v] (double x) { return x * v; }) | nd::to_shared(); return a(3) + t.size(); }, pool);
    auto want = leaves(t); auto got = leaves(r);
    REQUIRE(got.size() == want.size());
    for (std::size_t i = 0; i < want.size(); ++i) REQUIRE(got[i] == 3.0 * want[i] + n);
}
static void async_apply(int n)
{
    auto t = tree1(n);
    auto p = t.pair(t.map([] (int v) { return v * 10; }));
    auto r = p.apply([] (int a, int b) { return a + b; }, std::launch::async);
    auto want = leaves(t); auto got = leaves(r);
    REQUIRE(got.size() == want.size());
    for (std::size_t i = 0; i < want.size(); ++i) REQUIRE(got[i] == 11 * want[i]);
}
template<typename Map> void tree_throw(int n, int bad, Map&& map)
{
    auto t = tree1(n);
    bool caught = false;
    try { map(t, [bad] (int v) { if (v == bad) throw std::runtime_error("element failed"); return v; }); }
    catch (const std::runtime_error& e) { caught = std::string(e.what()) == "element failed"; }
    REQUIRE(caught);
}
// after a failed evaluation the pool goes on working
static void pool_throw(int workers, int n, int bad)
{
    mara::thread_pool_t pool(workers);
    tree_throw(n, bad, [&] (auto& t, auto f) { return t.map(f, pool); });
    REQUIRE(leaves(tree1(n).map([] (int v) { return v + 1; }, pool)) == leaves(tree1(n).map([] (int v) { return v + 1; })));
}
// two callers evaluate on the same pool at once
static void pool_two_callers(int workers)
{
    mara::thread_pool_t pool(workers);
    auto job = [&] (int k) { auto r = leaves(tree1(2).map([k] (int v) { return v * k; }, pool)); REQUIRE(r.size() == 2 && r[0] == 2 * k && r[1] == 3 * k); };
    std::thread other(job, 7);
    job(5);
    other.join();
}

// ---- arrays
template<std::size_t N> static void array1(std::size_t n)
{
    Count count;
    auto A = nd::make_array([&count] (auto i) { ++count.n[i[0]]; return std::vector<int>(2, int(i[0]) + 3); }, nd::make_shape(n));
    auto B = A | mara::evaluate_on<N>();
    REQUIRE(B.shape() == A.shape() && B.size() == n);
    for (std::size_t i = 0; i < n; ++i) { REQUIRE(count.n[i] == 1); REQUIRE(B(i) == std::vector<int>(2, int(i) + 3)); }
}
template<std::size_t N> static void array2(std::size_t n, std::size_t m)
{
    Count count;
    auto A = nd::make_array([&count, m] (auto i) { ++count.n[i[0] * m + i[1]]; return int(10 * i[0] + i[1]); }, nd::make_shape(n, m));
    auto B = A | mara::evaluate_on<N>();
    REQUIRE(B.shape() == A.shape());
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j) { REQUIRE(count.n[i * m + j] == 1); REQUIRE(B(i, j) == int(10 * i + j)); }
}
template<std::size_t N> static void array3(std::size_t n, std::size_t m, std::size_t k)
{
    auto A = nd::make_array([] (auto i) { return int(100 * i[0] + 10 * i[1] + i[2]); }, nd::make_shape(n, m, k));
    auto B = A | mara::evaluate_on<N>();
    REQUIRE(B.shape() == A.shape());
    for (auto i : A.indexes()) REQUIRE(A(i) == B(i));
}
// threads read a shared array and its reference count
template<std::size_t N> static void array_shared_source(std::size_t n)
{
    auto S = nd::linspace(0, 1, n + 1) | nd::to_shared();
    auto B = S | nd::difference_on_axis(0) | nd::multiply(double(n)) | mara::evaluate_on<N>();
    REQUIRE(B.size() == n);
    for (std::size_t i = 0; i < n; ++i) REQUIRE(B(i) > 0.999 && B(i) < 1.001);
}
template<std::size_t N> static void array_throw(std::size_t n, std::size_t bad)
{
    auto A = nd::make_array([bad] (auto i) -> int { if (i[0] == bad) throw std::out_of_range("bad element"); return i[0]; }, nd::make_shape(n));
    bool caught = false;
    try { auto B = A | mara::evaluate_on<N>(); (void) B; }
    catch (const std::out_of_range& e) { caught = std::string(e.what()) == "bad element"; }
    REQUIRE(caught);
}

int main(int argc, char** argv)
{
    std::vector<mcrt::scenario_t> s = {
        {"pool-2w-4t",       [] { pool_map(2, 4); }, 1, 2},
        {"pool-chain-2w-2t", [] { pool_chain(2, 2); }, 1, 2},
        {"pool-callers-2w",  [] { pool_two_callers(2); }, 1, 2},
        {"pool-shared-2w-3", [] { pool_shared_input(2, 3); }, 1, 2},
        {"pool-throw-2w-3a", [] { pool_throw(2, 3, 4); }, 1, 2},
        {"pool-throw-2w-3b", [] { pool_throw(2, 3, 3); }, 1, 2},
        {"pool-3w-3t",       [] { pool_map(3, 3); }, 1, 1},
        {"pool-2w-3t",       [] { pool_map(2, 3); }, 1, 2},
        {"pool-2w-2t",       [] { pool_map(2, 2); }, 2, 3},
        {"pool-1w-1t",       [] { pool_map(1, 1); }, 2, 4},
        {"pool-1w-3t",       [] { pool_map(1, 3); }, 2, 3},
        {"async-1",          [] { async_map(1, std::launch::async); }, 3, 5},
        {"async-2",          [] { async_map(2, std::launch::async); }, 2, 4},
        {"async-3",          [] { async_map(3, std::launch::async); }, 2, 3},
        {"async-4",          [] { async_map(4, std::launch::async); }, 1, 2},
        {"deferred-3",       [] { async_map(3, std::launch::deferred); }, 1, 1},
        {"async-apply-2",    [] { async_apply(2); }, 2, 4},
        {"async-throw-3",    [] { tree_throw(3, 5, [] (auto& t, auto f) { return t.map(f, std::launch::async); }); }, 2, 3},
        {"array-1t-3",       [] { array1<1>(3); }, 2, 4},
        {"array-2t-0",       [] { array1<2>(0); }, 2, 4},
        {"array-2t-1",       [] { array1<2>(1); }, 2, 4},
        {"array-2t-3",       [] { array1<2>(3); }, 2, 4},
        {"array-3t-2",       [] { array1<3>(2); }, 2, 3},
        {"array-3t-4",       [] { array1<3>(4); }, 2, 3},
        {"array-4t-5",       [] { array1<4>(5); }, 1, 2},
        {"array-2t-2x3",     [] { array2<2>(2, 3); }, 2, 4},
        {"array-3t-2x2",     [] { array2<3>(2, 2); }, 2, 3},
        {"array-4t-2x3",     [] { array2<4>(2, 3); }, 1, 2},
        {"array-4t-1x3",     [] { array2<4>(1, 3); }, 1, 2},
        {"array-2t-0x3",     [] { array2<2>(0, 3); }, 2, 3},
        {"array-3t-2x1x2",   [] { array3<3>(2, 1, 2); }, 2, 3},
        {"array-4t-1x2x2",   [] { array3<4>(1, 2, 2); }, 1, 2},
        {"array-shared-3t",  [] { array_shared_source<3>(4); }, 1, 2},
        {"array-throw-2t-a", [] { array_throw<2>(3, 0); }, 2, 3},
        {"array-throw-2t-b", [] { array_throw<2>(3, 2); }, 2, 3},
    };
    return mcrt::main(argc, argv, s);
}
