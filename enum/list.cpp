// C13: the persistent list against ordinary sequences.
#include <stdexcept>
#include <iterator>
#include <new>
#include "vf.hpp"
#include <array>
#include "core_linked_list.hpp"
#include <pthread.h>

namespace {

long live = 0;
struct item
{
    int v = 0;
    item() { ++live; }
    item(int v) : v(v) { ++live; }
    item(const item& o) : v(o.v) { ++live; }
    item& operator=(const item& o) { v = o.v; return *this; }
    ~item() { v = -99; --live; }
    bool operator==(const item& o) const { return v == o.v; }
};
using list = mara::linked_list_t<item>;
using seq = std::vector<int>;

std::string show(const seq& s) { std::string r = "["; for (int x : s) r += std::to_string(x); return r + "]"; }

void compare(const list& l, const seq& m)
{
    CHECK(l.empty() == m.empty(), "empty() of ", show(m));
    CHECK(l.size() == m.size(), "size ", l.size(), " of ", show(m));
    seq got; for (const auto& x : l) { got.push_back(x.v); CHECK(got.size() <= m.size(), "iteration goes on after the end of ", show(m)); }
    CHECK(got == m, "holds ", show(got), " instead of ", show(m));
    CHECK((l.begin() == l.end()) == m.empty() && (l.begin() != l.end()) == ! m.empty(), "begin and end");
    if (m.empty())
    {
        CHECK(vf::throws_as<std::out_of_range>([&] { l.head(); }), "head of an empty list");
        CHECK(vf::throws_as<std::out_of_range>([&] { l.tail(); }), "tail of an empty list");
    }
    else CHECK(l.head().v == m[0], "head of ", show(m));
}

const int S = 3;
struct op_t { int kind, a, b, t; };   // t = a (kind) b
std::vector<op_t> ops()
{
    std::vector<op_t> r;
    for (int a = 0; a < S; ++a)
    {
        for (int t = 0; t < S; ++t) { r.push_back({0, a, 1, t}); r.push_back({1, a, 2, t}); r.push_back({3, a, 0, t}); r.push_back({4, a, 0, t}); if (a != t) r.push_back({5, a, 0, t}); }
        r.push_back({0, a, 2, a}); r.push_back({1, a, 1, a});
        for (int b = 0; b < S; ++b) for (int t = 0; t < S; ++t) if (t == a || t == b || (a == 0 && b == 1)) r.push_back({2, a, b, t});
        r.push_back({6, a, 0, a}); r.push_back({7, a, 0, a}); r.push_back({8, a, 0, a});
    }
    return r;
}
std::string show(const op_t& o)
{
    static const char* n[] = {"prepend", "append", "concat", "reverse", "tail", "copy", "clear", "from iterators", "walk and drop"};
    return vf::cat("L", o.t, "=", n[o.kind], "(L", o.a, (o.kind == 2 ? ",L" : o.kind < 2 ? "," : ""), (o.kind <= 2 ? std::to_string(o.b) : std::string()), ")");
}

void apply(const op_t& o, std::array<list, S>& L, std::array<seq, S>& M)
{
    auto &a = L[o.a]; auto m = M[o.a];
    switch (o.kind)
    {
        case 0: L[o.t] = a.prepend(o.b); m.insert(m.begin(), o.b); M[o.t] = m; break;
        case 1: L[o.t] = a.append(o.b); m.push_back(o.b); M[o.t] = m; break;
        case 2: { auto r = a.concat(L[o.b]); auto n = m; n.insert(n.end(), M[o.b].begin(), M[o.b].end()); L[o.t] = r; M[o.t] = n; break; }
        case 3: L[o.t] = a.reverse(); std::reverse(m.begin(), m.end()); M[o.t] = m; break;
        case 4:
            if (m.empty()) { CHECK(vf::throws_as<std::out_of_range>([&] { L[o.t] = a.tail(); }), "tail of an empty list"); }
            else { L[o.t] = a.tail(); m.erase(m.begin()); M[o.t] = m; }
            break;
        case 5: L[o.t] = a; M[o.t] = m; break;
        case 6: L[o.t] = list(); M[o.t] = {}; break;
        case 7: L[o.t] = list(a.begin(), a.end()); break;
        case 8: { auto it = a.begin(); for (std::size_t k = 0; k < m.size(); ++k) { CHECK((*it).v == m[k], "element ", k); ++it; if (k == 0) L[o.t] = list(); } CHECK(it == list().end(), "end"); M[o.t] = {}; break; }
    }
}

void histories(vf::ctx& c)
{
    auto O = ops();
    int depth = c.pick(3, 4);
    // initial lists, of which some share structure
    for (int init = 0; init < 3; ++init) for (std::size_t p = 0; p < O.size(); ++p) for (std::size_t q = 0; q < O.size(); ++q)
        c.each([&] (auto& o) { o << "start " << init << "; " << show(O[p]) << "; " << show(O[q]) << "; every continuation of " << depth - 2; }, [&]
        {
            long before = live;
            int d = depth;
            std::function<void(const std::array<list, S>&, const std::array<seq, S>&, int)> go = [&] (const auto& L, const auto& M, int k)
            {
                if (k == d) return;
                for (std::size_t i = 0; i < O.size(); ++i)
                {
                    if (k == 0 && i != p) continue;
                    if (k == 1 && i != q) continue;
                    auto l = L; auto m = M;
                    apply(O[i], l, m);
                    c.step();
                    for (int s = 0; s < S; ++s) if (s == O[i].t || k + 1 < d) compare(l[s], m[s]);
                    compare(L[O[i].a], M[O[i].a]); compare(L[O[i].t], M[O[i].t]);   // the lists it was made from
                    if (k + 1 < d || k < 2) for (int s = 0; s < S; ++s) for (int t = 0; t < S; ++t)
                    {
                        CHECK((l[s] == l[t]) == (m[s] == m[t]), "comparison of ", show(m[s]), " and ", show(m[t]));
                        CHECK((l[s] != l[t]) == (m[s] != m[t]), "comparison of ", show(m[s]), " and ", show(m[t]));
                    }
                    c.state(vf::hash(show(m[0]) + show(m[1]) + show(m[2])));
                    go(l, m, k + 1);
                }
            };
            {
                std::array<list, S> L; std::array<seq, S> M;
                if (init == 1) { L[0] = list{1, 2}; M[0] = {1, 2}; L[1] = L[0].prepend(3); M[1] = {3, 1, 2}; L[2] = L[0].tail(); M[2] = {2}; }
                if (init == 2) { L[1] = list{1, 1, 2}; M[1] = {1, 1, 2}; L[2] = L[1]; M[2] = M[1]; }
                go(L, M, 0);
            }
            CHECK(live == before, live - before, " values were not released");
            c.interesting();
        });
}

// every sequence of up to n values, built in every way
void building(vf::ctx& c)
{
    int n = c.pick(6, 8);
    for (int len = 0; len <= n; ++len) for (long code = 0; code < (1l << len); ++code)
        c.each([&] (auto& o) { o << "values " << code << " of length " << len; }, [&]
        {
            long before = live;
            {
                seq m; for (int k = 0; k < len; ++k) m.push_back(1 + (code >> k & 1));
                list a, b; for (int k = len; k-- > 0;) a = a.prepend(m[k]);
                for (int k = 0; k < len; ++k) b = b.append(m[k]);
                list d(m.begin(), m.end()), e(a.begin(), a.end());
                compare(a, m); compare(b, m); compare(d, m); compare(e, m);
                CHECK(a == b && b == d && d == e && ! (a != b), "equal lists compare unequal");
                auto r = m; std::reverse(r.begin(), r.end());
                compare(a.reverse(), r); compare(a.reverse().reverse(), m);
                for (int cut = 0; cut <= len; ++cut)
                {
                    list x(m.begin(), m.begin() + cut), y(m.begin() + cut, m.end());
                    compare(x.concat(y), m); compare(x, seq(m.begin(), m.begin() + cut)); compare(y, seq(m.begin() + cut, m.end()));
                    if (cut < len) { CHECK(x != a && a != x && ! (x == a), "a prefix compares equal"); auto z = m; z[cut] = 3; CHECK(list(z.begin(), z.end()) != a, "different values compare equal"); }
                }
                c.step(4 + len); c.state(vf::hash(show(m)));
            }
            CHECK(live == before, live - before, " values were not released");
            c.interesting(len > 1);
        });
    c.each([&] (auto& o) { o << "initializer lists"; }, [&] { compare(list{}, {}); compare(list{5}, {5}); compare(list{5, 6}, {5, 6}); compare(list{1, 2, 3, 4}, {1, 2, 3, 4}); });
}

// long lists, on a thread with a small stack
struct job { std::function<void()> f; std::string error; };
void small_stack(std::function<void()> f)
{
    job j{f, ""};
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 << 10);
    pthread_t t;
    auto run = [] (void* p) -> void* { auto j = (job*) p; try { j->f(); } catch (const vf::failure_t& e) { j->error = e.what; } catch (const std::exception& e) { j->error = e.what(); } return nullptr; };
    CHECK(! pthread_create(&t, &at, run, &j), "thread");
    pthread_join(t, nullptr); pthread_attr_destroy(&at);
    if (! j.error.empty()) vf::fail(j.error);
}
void long_lists(vf::ctx& c)
{
    const char* what[] = {"build and release", "append", "concat", "reverse", "compare", "size and iterate", "release of a shared tail", "assign over", "tail to the end"};
    for (int k = 0; k < 9; ++k) for (int n : {100, 20000, c.pick(100000, 1000000)})
        c.each([&] (auto& o) { o << what[k] << ", " << n << " values"; }, [&]
        {
            long before = live;
            small_stack([&]
            {
                list a; for (int i = 0; i < n; ++i) a = a.prepend(i);
                switch (k)
                {
                    case 1: { auto b = a.append(-5); CHECK(int(b.size()) == n + 1 && b.head().v == n - 1, "append"); break; }
                    case 2: { auto b = a.concat(a); CHECK(int(b.size()) == 2 * n, "concat"); break; }
                    case 3: { auto b = a.reverse(); CHECK(b.head().v == 0 && int(b.size()) == n, "reverse"); break; }
                    case 4: { list b(a.begin(), a.end()); CHECK(a == b && ! (a != b), "compare"); break; }
                    case 5: { long s = 0; for (const auto& x : a) s += x.v; CHECK(s == long(n) * (n - 1) / 2 && int(a.size()) == n, "iterate"); break; }
                    case 6: { auto b = a.prepend(1); auto d = a.prepend(2); a = list(); b = list(); CHECK(int(d.size()) == n + 1, "shared"); break; }
                    case 7: { list b; b = a; a = list(); CHECK(int(b.size()) == n, "copy"); b = list{1}; break; }
                    case 8: { int s = 0; while (! a.empty()) { a = a.tail(); ++s; } CHECK(s == n, "tails"); break; }
                }
            });
            CHECK(live == before, live - before, " values were not released");
            c.interesting(); c.step();
        });
}
}

int main(int argc, char** argv)
{
    return vf::main(argc, argv, {{"histories", histories}, {"building", building}, {"long", long_lists}});
}
