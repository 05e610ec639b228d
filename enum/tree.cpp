// C05: the tree container agrees with a map from leaf addresses to values.
//
// A state is a tree shape with generic leaf values. Every shape within bounds is
// visited, and from each one every operation with every argument in range is
// taken; the result, and the tree the operation was applied to, are compared
// with the reference map. Since every shape is a start state, one operation per
// state covers operation sequences of any length that stay within the bounds.
#include "trees.hpp"
#include <numeric>
using vf::ctx;
using ref::addr;
template<std::size_t R> using itree = mara::arithmetic_binary_tree_t<int, R>;
template<std::size_t R> using imap = std::map<addr<R>, int>;

template<std::size_t R> static int label(const addr<R>& a) { int h = 1 + a.level * 1000; for (std::size_t k = 0; k < R; ++k) h += int(a.x[k] + 1) * (k == 0 ? 7 : k == 1 ? 61 : 211); return h; }

template<std::size_t R, typename F> static void addresses(std::size_t level, std::size_t overshoot, F&& f)
{
    addr<R> a; a.level = level;
    std::size_t n = (std::size_t(1) << level) + overshoot;
    std::function<void(std::size_t)> rec = [&] (std::size_t k) { if (k == R) { f(a); return; } for (a.x[k] = 0; a.x[k] < n; ++a.x[k]) rec(k + 1); };
    rec(0);
}
template<std::size_t R> static bool valid(const addr<R>& a) { for (auto x : a.x) if (x >= (std::size_t(1) << a.level)) return false; return true; }

// all of the observers
template<typename T, std::size_t R>
static void same(const mara::arithmetic_binary_tree_t<T, R>& t, const ref::shape<R>& s, const std::map<addr<R>, T>& m, const char* what)
{
    auto L = s.leaves();
    CHECK(L.size() == m.size(), "model");
    CHECK(t.size() == L.size(), what, ": size ", t.size(), " instead of ", L.size());
    CHECK(t.depth() == s.depth(), what, ": depth ", t.depth(), " instead of ", s.depth());
    auto v = ref::values(t);
    CHECK(v.size() == L.size(), what, ": iteration visits ", v.size());
    auto I = ref::values(t.indexes());
    CHECK(I.size() == L.size(), what, ": indexes visits ", I.size());
    CHECK(t.front() == m.at(L[0]), what, ": front");
    CHECK(t.has_value() == s.branches.empty(), what, ": has_value");
    for (std::size_t n = 0; n < L.size(); ++n)
    {
        CHECK(v[n] == m.at(L[n]), what, ": leaf ", n, " at ", L[n]);
        CHECK(addr<R>::of(I[n]) == L[n], what, ": index of leaf ", n, " is ", addr<R>::of(I[n]), " instead of ", L[n]);
        CHECK(t.at(L[n].index()) == m.at(L[n]), what, ": at ", L[n]);
    }
    auto P = ref::values(t.pair_indexes());
    CHECK(P.size() == L.size(), what, ": pair_indexes");
    for (std::size_t n = 0; n < L.size(); ++n) CHECK(addr<R>::of(P[n].first) == L[n] && P[n].second == v[n], what, ": pair_indexes ", n);
}

template<std::size_t R>
static void lookups(const itree<R>& t, const ref::shape<R>& s, const imap<R>& m, std::size_t deep)
{
    for (std::size_t l = 0; l <= deep; ++l)
        addresses<R>(l, l < 2 ? 2 : 1, [&] (const addr<R>& a)
        {
            auto i = a.index();
            bool leaf = valid(a) && s.is_leaf(a), branch = valid(a) && s.branches.count(a);
            CHECK(i.valid() == valid(a), "valid ", a);
            CHECK(t.contains(i) == leaf, "contains ", a, " gives ", t.contains(i));
            CHECK(t.contains_node(i) == (leaf || branch), "contains_node ", a, " gives ", t.contains_node(i));
            auto f = t.find(i);
            CHECK(bool(f) == leaf, "find ", a);
            if (leaf)
            {
                CHECK(*f == m.at(a) && t.at(i) == m.at(a), "value at ", a);
                CHECK(t.node_at(i).has_value() && t.node_at(i).value() == m.at(a), "node at ", a);
                CHECK(vf::throws_as<std::out_of_range>([&] { t.node_at(i).children(); }), "children of a leaf");
            }
            else CHECK(vf::throws_as<std::out_of_range>([&] { t.at(i); }), "reading ", a, " is not refused");
            if (branch)
            {
                auto& n = t.node_at(i);
                CHECK(! n.has_value(), "node at ", a);
                CHECK(vf::throws_as<std::out_of_range>([&] { n.value(); }), "value of a branch");
                std::size_t count = 0, depth = 0;
                for (auto& l : s.leaves()) if (l.inside(a)) { ++count; depth = std::max(depth, l.level - a.level); }
                CHECK(n.size() == count && n.depth() == depth, "node at ", a, ": size ", n.size(), " depth ", n.depth());
                for (std::size_t k = 0; k < (1u << R); ++k)
                {
                    mara::arithmetic_sequence_t<bool, R> o;
                    for (std::size_t d = 0; d < R; ++d) o[d] = (k >> d) & 1;
                    CHECK(&n.child_at(o) == &n.children()[k] && &n.child_at(o) == &t.node_at(a.child(k).index()), "child ", k, " of ", a);
                }
            }
            if (! leaf && ! branch) CHECK(vf::throws_as<std::out_of_range>([&] { t.node_at(i); }), "node_at ", a, " is not refused");
        });
}

template<std::size_t R>
static void reductions(const itree<R>& t, const imap<R>& m)
{
    int sum = 0, lo = m.begin()->second, hi = lo;
    for (auto& e : m) { sum += e.second; lo = std::min(lo, e.second); hi = std::max(hi, e.second); }
    CHECK(t.sum() == sum, "sum ", t.sum());
    CHECK(t.min() == lo && t.max() == hi, "min ", t.min(), " max ", t.max());
    for (auto& e : m)   // one leaf differs from all others
    {
        int v = e.second;
        CHECK((t == v).any() && (t != v).all() == false, "any");
        CHECK((t == v).all() == (m.size() == 1), "all");
        CHECK((t != v).any() == (m.size() > 1), "any !=");
    }
    CHECK(! (t == -1).any() && (t != -1).all(), "none");
}

template<std::size_t R>
static void run(ctx& c, std::size_t depth, std::size_t branches, std::size_t slack)
{
    ref::trees<R>(depth, branches, [&] (const ref::shape<R>& s)
    {
        c.each([&] (auto& o) { o << "rank " << R << " tree " << s.str(); }, [&]
        {
            c.state(s.hash()); c.interesting(s.branches.size() > 0);
            auto L = s.leaves();
            imap<R> m;
            for (auto& l : L) m[l] = label<R>(l);
            auto t0 = ref::build(s);
            { std::map<addr<R>, addr<R>> id; for (auto& l : L) id[l] = l; same(t0, s, id, "built"); }
            auto t = t0.map([] (const addr<R>& a) { return label<R>(a); });
            same<int, R>(t, s, m, "map");
            lookups<R>(t, s, m, s.depth() + slack);
            reductions<R>(t, m);
            auto unchanged = [&] (const char* op) { same<int, R>(t, s, m, op); };
            // the iteration order is the order of the indexes, for any start
            if (R == 2) { auto I = ref::values(t.indexes(addr<R>{1, {}}.index())); CHECK(I.size() == L.size() && I[0].level == L[0].level + 1, "indexes from a start"); }
            // ---- operators
            {
                auto mm = m; for (auto& e : mm) e.second = 3 * e.second + 1;
                same<int, R>(t * 3 + 1, s, mm, "* +"); c.step();
                for (auto& e : mm) e.second = m[e.first] - 5; same<int, R>(t - 5, s, mm, "-"); c.step();
                for (auto& e : mm) e.second = m[e.first] / 3; same<int, R>(t / 3, s, mm, "/"); c.step();
                for (auto& e : mm) e.second = - m[e.first]; same<int, R>(-t, s, mm, "unary -"); c.step();
                same<int, R>(+t, s, m, "unary +"); c.step();
                std::map<addr<R>, bool> b; int v = m.at(L[L.size() / 2]);
                for (auto& e : m) b[e.first] = e.second <  v; same<bool, R>(t <  v, s, b, "<");
                for (auto& e : m) b[e.first] = e.second <= v; same<bool, R>(t <= v, s, b, "<=");
                for (auto& e : m) b[e.first] = e.second >  v; same<bool, R>(t >  v, s, b, ">");
                for (auto& e : m) b[e.first] = e.second >= v; same<bool, R>(t >= v, s, b, ">=");
                for (auto& e : m) b[e.first] = e.second == v; same<bool, R>(t == v, s, b, "==");
                for (auto& e : m) b[e.first] = e.second != v; same<bool, R>(t != v, s, b, "!=");
                for (auto& e : m) b[e.first] = e.second > 2000 && e.second % 2; same<bool, R>((t > 2000) && t.map([] (int x) { return x % 2 == 1; }), s, b, "&&");
                for (auto& e : m) b[e.first] = e.second > 2000 || e.second % 2; same<bool, R>((t > 2000) || t.map([] (int x) { return x % 2 == 1; }), s, b, "||");
                for (bool k : {false, true})
                {
                    auto odd = t.map([] (int x) { return x % 2 == 1; });
                    for (auto& e : m) b[e.first] = e.second % 2 && k; same<bool, R>(odd && k, s, b, "&& scalar");
                    for (auto& e : m) b[e.first] = e.second % 2 || k; same<bool, R>(odd || k, s, b, "|| scalar");
                }
                auto u = t.map([] (int x) { return x * x % 97; });
                auto f = [] (int x) { return x * x % 97; };
                for (auto& e : mm) e.second = m[e.first] + f(m[e.first]); same<int, R>(t + u, s, mm, "t+t");
                for (auto& e : mm) e.second = m[e.first] - f(m[e.first]); same<int, R>(t - u, s, mm, "t-t");
                for (auto& e : mm) e.second = m[e.first] * f(m[e.first]); same<int, R>(t * u, s, mm, "t*t");
                for (auto& e : mm) e.second = f(m[e.first]) / m[e.first]; same<int, R>(u / t, s, mm, "t/t");
                auto w = t.map([v] (int x) { return x == v ? x : x > v ? x - 1 : x + 1; });
                auto g = [v] (int x) { return x == v ? x : x > v ? x - 1 : x + 1; };
                for (auto& e : m) b[e.first] = e.second <  g(e.second); same<bool, R>(t <  w, s, b, "t<t");
                for (auto& e : m) b[e.first] = e.second <= g(e.second); same<bool, R>(t <= w, s, b, "t<=t");
                for (auto& e : m) b[e.first] = e.second >  g(e.second); same<bool, R>(t >  w, s, b, "t>t");
                for (auto& e : m) b[e.first] = e.second >= g(e.second); same<bool, R>(t >= w, s, b, "t>=t");
                for (auto& e : m) b[e.first] = e.second == g(e.second); same<bool, R>(t == w, s, b, "t==t");
                for (auto& e : m) b[e.first] = e.second != g(e.second); same<bool, R>(t != w, s, b, "t!=t");
                c.step(20);
                auto pr = ref::values(t.pair(t0));
                for (std::size_t n = 0; n < L.size(); ++n) CHECK(pr[n].first == m[L[n]] && pr[n].second == L[n], "pair ", n);
                auto ap = t.pair(t0).apply([] (int a, const addr<R>& b) { return a - label<R>(b); });
                for (auto x : ref::values(ap)) CHECK(x == 0, "apply");
                auto fn = t0.map([] (const addr<R>& a) { return [k = label<R>(a)] (int x) { return x * 2 - k; }; });
                same<int, R>(fn.apply_to(t), s, m, "apply_to");
                unchanged("operators");
            }
            // ---- splitting all leaves, and each single one
            {
                auto split = [] (int v) { mara::arithmetic_sequence_t<int, 1 << R> q; for (std::size_t k = 0; k < (1u << R); ++k) q[k] = 10 * v + int(k); return q; };
                auto s2 = s; imap<R> m2;
                for (auto& l : L) { s2.branches.insert(l); for (std::size_t k = 0; k < (1u << R); ++k) m2[l.child(k)] = 10 * m[l] + int(k); }
                if (L.size() <= 64) same<int, R>(t.bifurcate_all(split), s2, m2, "bifurcate_all");
                c.step();
                auto wide = t.bifurcate_all([] (int v) { mara::arithmetic_sequence_t<std::string, 1 << R> q; for (std::size_t k = 0; k < (1u << R); ++k) q[k] = std::to_string(v) + "/" + std::to_string(k); return q; });
                auto W = ref::values(wide);
                CHECK(W.size() == L.size() << R, "bifurcate_all to another type");
                for (std::size_t n = 0; n < W.size(); ++n) CHECK(W[n] == std::to_string(m[L[n >> R]]) + "/" + std::to_string(n % (1u << R)), "bifurcate_all order");
                for (auto& l : L)
                {
                    auto s3 = s; auto m3 = m;
                    s3.branches.insert(l); m3.erase(l);
                    for (std::size_t k = 0; k < (1u << R); ++k) m3[l.child(k)] = 10 * m[l] + int(k);
                    int calls = 0;
                    auto r = t.bifurcate_if([v = m[l]] (int x) { return x == v; }, [&] (int v) { ++calls; return split(v); });
                    same<int, R>(r, s3, m3, "bifurcate_if");
                    CHECK(calls == 1, "bifurcate_if splits ", calls);
                    // zipping trees of different shapes is refused, both ways
                    CHECK(vf::throws([&] { t.pair(r); }), "pair with a finer tree is not refused");
                    CHECK(vf::throws([&] { r.pair(t); }), "pair with a coarser tree is not refused");
                    c.step(3);
                }
                unchanged("bifurcate");
            }
            // ---- insert and update at every address
            for (std::size_t l = 0; l <= s.depth() + slack; ++l)
                addresses<R>(l, l < 2 ? 1 : 0, [&] (const addr<R>& a)
                {
                    auto i = a.index();
                    bool ok = valid(a) && ! s.branches.count(a);
                    c.step(2);
                    if (! ok) CHECK(vf::throws_as<std::out_of_range>([&] { t.insert(i, -7); }), "insert at ", a, " is not refused");
                    else
                    {
                        // branches all the way down to the address; siblings get a default value
                        auto s2 = s; auto m2 = m;
                        auto top = s.leaf_over(a);
                        if (top != a) m2.erase(top);
                        for (auto p = a; p != top; p = p.parent())
                        {
                            s2.branches.insert(p.parent());
                            for (std::size_t k = 0; k < (1u << R); ++k) if (p.parent().child(k) != p) m2[p.parent().child(k)] = 0;
                        }
                        m2[a] = -7;
                        same<int, R>(t.insert(i, -7), s2, m2, "insert");
                    }
                    auto neg = [] (int x) { return -x; };
                    if (! valid(a) || (! s.branches.count(a) && ! s.is_leaf(a))) CHECK(vf::throws_as<std::out_of_range>([&] { t.update(i, neg); }), "update at ", a, " is not refused");
                    else
                    {
                        auto m2 = m;
                        for (auto& e : m2) if (e.first.inside(a)) e.second = - e.second;
                        same<int, R>(t.update(i, neg), s, m2, "update");
                    }
                });
            unchanged("insert and update");
        });
    });
}

// building a tree by inserting its leaves in any order gives the same tree
template<std::size_t R>
static void insert_orders(ctx& c, std::size_t depth, std::size_t branches)
{
    ref::trees<R>(depth, branches, [&] (const ref::shape<R>& s)
    {
        auto L = s.leaves();
        imap<R> m; for (auto& l : L) m[l] = label<R>(l);
        auto go = [&] (const std::vector<addr<R>>& order)
        {
            c.each([&] (auto& o) { o << "rank " << R << " tree " << s.str() << " inserted in the order"; for (auto& a : order) o << " " << a; }, [&]
            {
                auto t = itree<R>{-1};
                for (auto& a : order) { t = t.insert(a.index(), m[a]); c.step(); }
                same<int, R>(t, s, m, "insert order");
                c.interesting();
            });
        };
        if (L.size() <= 5) { auto o = L; std::sort(o.begin(), o.end()); do go(o); while (std::next_permutation(o.begin(), o.end())); }
        else for (std::size_t r = 0; r < L.size(); ++r) { auto o = L; std::rotate(o.begin(), o.begin() + r, o.end()); go(o); std::reverse(o.begin(), o.end()); go(o); }
    });
}

void tree_1(ctx&); void tree_2(ctx&); void tree_3(ctx&); void insert_1(ctx&); void insert_2(ctx&); void insert_3(ctx&);

template<std::size_t R>
static void navigation(ctx& c, std::size_t deep)
{
    for (std::size_t l = 0; l <= deep; ++l)
        addresses<R>(l, 0, [&] (const addr<R>& a)
        {
            c.each([&] (auto& o) { o << "rank " << R << " address " << a; }, [&]
            {
                auto i = a.index();
                c.state(vf::hash(vf::cat(R, "/", a))); c.interesting(l > 0);
                CHECK(i.valid() && i == i && ! (i != i), "");
                auto ch = i.child_indexes();
                for (std::size_t n = 0; n < (1u << R); ++n)
                {
                    c.step();
                    auto k = addr<R>::of(ch[n]);
                    CHECK(k == a.child(n), "child ", n, " is ", k);
                    CHECK(ch[n].parent_index() == i, "parent of child ", n);
                    CHECK(ch[n] != i && ! (ch[n] == i), "");
                    auto rel = ch[n].relative_to_parent();
                    addr<R> want = addr<R>().child(n);
                    CHECK(addr<R>::of(rel) == want, "relative to parent ", addr<R>::of(rel));
                    CHECK(mara::to_integral(rel.orthant()) == n, "orthant of child ", n);
                }
                for (std::size_t d = 0; d < R; ++d)
                {
                    c.step(2);
                    CHECK(addr<R>::of(i.next_on(d)) == a.shifted(d, 1), "next on axis ", d);
                    CHECK(addr<R>::of(i.prev_on(d)) == a.shifted(d, -1), "prev on axis ", d);
                    CHECK(i.next_on(d).prev_on(d) == i && i.prev_on(d).next_on(d) == i, "next and prev on axis ", d);
                    auto bad = i; bad.coordinates[d] = std::size_t(1) << l;
                    CHECK(! bad.valid() && bad != i, "index outside of its level is valid");
                }
                CHECK(addr<R>::of(i.with_level(l + 3)).level == l + 3 && addr<R>::of(i.with_level(l + 3)).x == a.x, "with_level");
                if (l > 0)
                {
                    // one step down from the root
                    std::size_t n = 0;
                    addr<R> rest; rest.level = l - 1;
                    for (std::size_t d = 0; d < R; ++d) { std::size_t h = std::size_t(1) << (l - 1); if (a.x[d] >= h) n |= 1u << d; rest.x[d] = a.x[d] % h; }
                    CHECK(mara::to_integral(i.orthant()) == n, "orthant");
                    CHECK(addr<R>::of(i.advance_level()) == rest, "advance_level");
                    CHECK(addr<R>::of(i.parent_index()) == a.parent(), "parent_index");
                }
            });
        });
}

static void hilbert(ctx& c)
{
    for (std::size_t l = 0; l <= c.pick(6, 9); ++l)
        c.each([&] (auto& o) { o << "Hilbert curve of level " << l; }, [&]
        {
            std::size_t n = std::size_t(1) << l;
            std::vector<addr<2>> at(n * n);
            std::vector<int> seen(n * n);
            addresses<2>(l, 0, [&] (const addr<2>& a)
            {
                auto h = mara::hilbert_index(a.index());
                CHECK(h < n * n, "index ", h, " of ", a, " is out of range");
                CHECK(! seen[h]++, "index ", h, " is used twice");
                at[h] = a; c.step();
            });
            for (std::size_t h = 1; h < n * n; ++h)
            {
                auto d = [&] (int k) { return std::labs(long(at[h].x[k]) - long(at[h - 1].x[k])); };
                CHECK(d(0) + d(1) == 1, "consecutive indexes ", h - 1, " and ", h, " are at ", at[h - 1], " and ", at[h]);
            }
            c.interesting(l > 0);
        });
}

template<std::size_t B> static void bits_of(ctx& c)
{
    c.each([&] (auto& o) { o << "binary representation with " << B << " bits"; }, [&]
    {
        for (std::size_t v = 0; v < (1u << B); ++v)
        {
            auto b = mara::binary_repr<B>(v);
            for (std::size_t k = 0; k < B; ++k) CHECK(b[k] == bool((v >> k) & 1), "bit ", k, " of ", v);
            CHECK(mara::to_integral(b) == v, "value ", v);
        }
    });
}

#ifndef VF_PART
int main(int argc, char** argv)
{
    return vf::main(argc, argv, {
        {"bits", [] (ctx& c) { bits_of<1>(c); bits_of<2>(c); bits_of<3>(c); bits_of<6>(c); bits_of<10>(c); }},
        {"tree-1", tree_1}, {"tree-2", tree_2}, {"tree-3", tree_3},
        {"insert-1", insert_1}, {"insert-2", insert_2}, {"insert-3", insert_3},
        {"navigate-1", [] (ctx& c) { navigation<1>(c, c.pick(8, 12)); }},
        {"navigate-2", [] (ctx& c) { navigation<2>(c, c.pick(5, 7)); }},
        {"navigate-3", [] (ctx& c) { navigation<3>(c, c.pick(3, 5)); }},
        {"hilbert", hilbert},
    });
}
#elif VF_PART == 1
void tree_1(ctx& c) { run<1>(c, c.pick(4, 5), c.pick(15, 8), 2); }
void insert_1(ctx& c) { insert_orders<1>(c, 4, c.pick(4, 4)); insert_orders<1>(c, 3, 7); }
#elif VF_PART == 2
void tree_2(ctx& c) { run<2>(c, 2, 5, 1); run<2>(c, c.pick(3, 4), c.pick(3, 4), 1); }
void insert_2(ctx& c) { insert_orders<2>(c, 3, c.pick(3, 4)); }
#elif VF_PART == 3
void tree_3(ctx& c) { run<3>(c, 2, c.pick(2, 3), 1); }
void insert_3(ctx& c) { insert_orders<3>(c, 2, c.pick(2, 3)); }
#endif
