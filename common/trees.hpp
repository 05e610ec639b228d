// Reference model of the tree container: a set of branch addresses, and a map
// from leaf addresses to values, in depth-first order of the children
// (child n of a node is offset by bit a of n on axis a).
#pragma once
#include "vf.hpp"
#include "core_tree.hpp"
#include <array>
#include <functional>

namespace ref
{
template<std::size_t R> struct addr
{
    std::size_t level = 0;
    std::array<std::size_t, R> x = {};
    bool operator<(const addr& o) const { return level != o.level ? level < o.level : x < o.x; }
    bool operator==(const addr& o) const { return level == o.level && x == o.x; }
    bool operator!=(const addr& o) const { return ! (*this == o); }
    addr child(std::size_t n) const { addr c; c.level = level + 1; for (std::size_t a = 0; a < R; ++a) c.x[a] = 2 * x[a] + ((n >> a) & 1); return c; }
    addr parent() const { addr c; c.level = level - 1; for (std::size_t a = 0; a < R; ++a) c.x[a] = x[a] / 2; return c; }
    bool inside(const addr& o) const   // is this node o, or below it
    {
        if (level < o.level) return false;
        for (std::size_t a = 0; a < R; ++a) if ((x[a] >> (level - o.level)) != o.x[a]) return false;
        return true;
    }
    addr shifted(std::size_t a, long d) const { addr c = *this; long n = 1l << level; c.x[a] = std::size_t(((long(x[a]) + d) % n + n) % n); return c; }
    mara::tree_index_t<R> index() const { mara::tree_index_t<R> i; i.level = level; for (std::size_t a = 0; a < R; ++a) i.coordinates[a] = x[a]; return i; }
    static addr of(const mara::tree_index_t<R>& i) { addr r; r.level = i.level; for (std::size_t a = 0; a < R; ++a) r.x[a] = i.coordinates[a]; return r; }
};
template<std::size_t R> std::ostream& operator<<(std::ostream& o, const addr<R>& a)
{
    o << a.level << ":"; for (std::size_t k = 0; k < R; ++k) o << (k ? "," : "") << a.x[k]; return o;
}

template<std::size_t R> struct shape   // of a tree
{
    std::set<addr<R>> branches;
    void visit(const std::function<void(const addr<R>&)>& f, const addr<R>& at={}) const
    {
        if (! branches.count(at)) { f(at); return; }
        for (std::size_t n = 0; n < (1u << R); ++n) visit(f, at.child(n));
    }
    std::vector<addr<R>> leaves() const { std::vector<addr<R>> v; visit([&] (const addr<R>& a) { v.push_back(a); }); return v; }
    std::size_t depth() const { std::size_t d = 0; for (auto& b : branches) d = std::max(d, b.level + 1); return d; }
    bool is_leaf(const addr<R>& a) const { return ! branches.count(a) && (a.level == 0 || branches.count(a.parent())); }
    addr<R> leaf_over(addr<R> a) const { while (! is_leaf(a)) { if (branches.count(a)) return a; a = a.parent(); } return a; } // the leaf covering a (or a, if it is a branch)
    std::string str() const { std::ostringstream o; o << "{"; for (auto& b : branches) o << " " << b; o << " }"; return o.str(); }
    bool operator==(const shape& o) const { return branches == o.branches; }
    uint64_t hash() const { return vf::hash(str()); }
};

// every tree with at most max_branches branches and at most the given depth,
// each exactly once
template<std::size_t R, typename F>
void trees(std::size_t depth, std::size_t max_branches, F&& f)
{
    // grow in a canonical order: a branch is only added after all smaller ones
    std::function<void(shape<R>&)> rec = [&] (shape<R>& s)
    {
        f(const_cast<const shape<R>&>(s));
        if (s.branches.size() == max_branches) return;
        for (auto& l : s.leaves())
        {
            if (l.level >= depth) continue;
            if (! s.branches.empty() && l < *s.branches.rbegin()) continue;
            auto n = s; n.branches.insert(l); rec(n);
        }
    };
    shape<R> s; rec(s);
}

// the real tree with a shape, each leaf holding f(address)
template<std::size_t R>
mara::arithmetic_binary_tree_t<addr<R>, R> build(const shape<R>& s)
{
    auto t = mara::arithmetic_binary_tree_t<addr<R>, R>{addr<R>()};
    for (std::size_t d = 0; d < s.depth(); ++d)
        t = t.bifurcate_if([&] (const addr<R>& a) { return a.level == d && s.branches.count(a) > 0; }, [] (const addr<R>& a)
        {
            mara::arithmetic_sequence_t<addr<R>, 1 << R> c;
            for (std::size_t n = 0; n < (1u << R); ++n) c[n] = a.child(n);
            return c;
        });
    return t;
}

template<typename T, std::size_t R> std::vector<T> values(const mara::arithmetic_binary_tree_t<T, R>& t) { std::vector<T> v; t.sink([&] (const T& x) { v.push_back(x); }); return v; }
}
