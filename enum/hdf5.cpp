// C08: whatever is written to a file is read back unchanged.
#include "vf.hpp"
#include "trees.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "core_hdf5.hpp"
#include "app_serialize.hpp"
#include "app_serialize_tree.hpp"
#include <memory>

namespace {

struct rec_t { int a = 0; double b = 0; };
struct rec2_t { double a = 0; double b = 0; unsigned long n = 0; };

// -------------------------------------------------------------- reference view
// What a dataset is, independent of the code under test: an element type, an
// extent (or scalar), and the bytes of its elements in row-major order.
struct dset_t
{
    std::string key;
    bool scalar = true;
    std::vector<std::size_t> shape;
    std::string bytes;
    bool same_layout(const dset_t& o) const { return key == o.key && scalar == o.scalar && shape == o.shape; }
    bool operator==(const dset_t& o) const { return same_layout(o) && bytes == o.bytes; }
};
template<typename T> std::string raw(const T& x) { return std::string((const char*) &x, sizeof(T)); }

template<typename T> struct view;
template<> struct view<char>          { static std::string key(const char&) { return "str1"; }            static std::string el(const char& x) { return raw(x); } };
template<> struct view<int>           { static std::string key(const int&) { return "int"; }              static std::string el(const int& x) { return raw(x); } };
template<> struct view<unsigned long> { static std::string key(const unsigned long&) { return "ulong"; }  static std::string el(const unsigned long& x) { return raw(x); } };
template<> struct view<double>        { static std::string key(const double&) { return "double"; }        static std::string el(const double& x) { return raw(x); } };
template<> struct view<std::string>
{
    static std::string key(const std::string& s) { return "str" + std::to_string(std::max<std::size_t>(1, s.size())); }
    static std::string el(const std::string& s) { return s.empty() ? std::string(1, '\0') : s; }
};
template<int C, int G, int S> struct view<mara::dimensional_value_t<C, G, S, double>>
{
    using T = mara::dimensional_value_t<C, G, S, double>;
    static std::string key(const T&) { return "double"; }
    static std::string el(const T& x) { return raw(x.value); }
};
template<> struct view<mara::rational_number_t>
{
    static std::string key(const mara::rational_number_t&) { return "int[2]"; }
    static std::string el(const mara::rational_number_t& x) { return raw(x.get_numerator()) + raw(x.get_denominator()); }
};
template<typename V, std::size_t N> struct view<mara::arithmetic_sequence_t<V, N>>
{
    using T = mara::arithmetic_sequence_t<V, N>;
    static std::string key(const T&) { return view<V>::key(V()) + "[" + std::to_string(N) + "]"; }
    static std::string el(const T& x) { std::string s; for (std::size_t i = 0; i < N; ++i) s += view<V>::el(x[i]); return s; }
};
template<> struct view<rec_t>  { static std::string key(const rec_t&) { return "rec"; } static std::string el(const rec_t& x) { return raw(x.a) + raw(x.b); } };
template<> struct view<rec2_t> { static std::string key(const rec2_t&) { return "rec2"; } static std::string el(const rec2_t& x) { return raw(x.a) + raw(x.b) + raw(x.n); } };

template<typename T> dset_t as_dset(const T& x) { dset_t d; d.key = view<T>::key(x); d.bytes = view<T>::el(x); return d; }
template<typename V> dset_t as_dset(const std::vector<V>& x) { dset_t d; d.key = view<V>::key(V()); d.scalar = false; d.shape = {x.size()}; for (auto& e : x) d.bytes += view<V>::el(e); return d; }
template<typename V> dset_t as_dset(const mara::linked_list_t<V>& x) { std::vector<V> v; for (const auto& e : x) v.push_back(e); return as_dset(v); }
template<typename V, std::size_t R, typename A> dset_t as_nd(const A& x)
{
    dset_t d; d.key = view<V>::key(V()); d.scalar = false;
    for (auto n : x.shape()) d.shape.push_back(n);
    std::size_t total = 1; for (auto n : d.shape) total *= n;
    for (std::size_t k = 0; k < total; ++k)
    {
        nd::index_t<R> i; std::size_t q = k;
        for (std::size_t a = R; a-- > 0;) { i[a] = q % d.shape[a]; q /= d.shape[a]; }
        d.bytes += view<V>::el(x(i));
    }
    return d;
}
template<typename V, std::size_t R> dset_t as_dset(const nd::shared_array<V, R>& x) { return as_nd<V, R>(x); }
template<typename V, std::size_t R> dset_t as_dset(const nd::unique_array<V, R>& x) { return as_nd<V, R>(x); }
dset_t as_dset(const mara::config_parameter_t& x) { return std::visit([] (auto& v) { return as_dset(v); }, x); }

// --------------------------------------------------------------- open handles
struct handles_t
{
    long n[4];
    static handles_t now()
    {
        handles_t h;
        hsize_t k = 0;
        H5I_type_t types[] = {H5I_DATATYPE, H5I_DATASPACE, H5I_GENPROP_LST};
        h.n[0] = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE | H5F_OBJ_GROUP | H5F_OBJ_DATASET | H5F_OBJ_ATTR);
        for (int i = 0; i < 3; ++i) { H5Inmembers(types[i], &k); h.n[i + 1] = long(k); }
        return h;
    }
    bool operator==(const handles_t& o) const { for (int i = 0; i < 4; ++i) if (n[i] != o.n[i]) return false; return true; }
    std::string str() const { return vf::cat("objects ", n[0], " datatypes ", n[1], " dataspaces ", n[2], " property lists ", n[3]); }
};
#define HANDLES_BEGIN auto handles_before = handles_t::now()
#define HANDLES_END do { auto now = handles_t::now(); CHECK(now == handles_before, "handles leaked: before ", handles_before.str(), " after ", now.str()); } while (0)

std::string fname() { return vf::scratch() + "/t.h5"; }

// ------------------------------------------------------------ type-erased values
struct reader_t
{
    std::string name;
    std::string family;                                            // how a value of this type is laid out
    std::function<dset_t(h5::File&, const std::string&)> read;     // may throw
};
struct value_t
{
    std::string name;
    std::size_t type;                                              // reader index
    dset_t d;
    std::function<void(h5::File&, const std::string&)> write;
    std::function<void(h5::Group&, const std::string&)> write_g;
    std::function<void(h5::Dataset&)> write_d;
};
std::vector<reader_t> readers;
std::vector<value_t> values;

template<typename T> std::size_t reader(const std::string& name)
{
    for (std::size_t i = 0; i < readers.size(); ++i) if (readers[i].name == name) return i;
    readers.push_back({name, name, [] (h5::File& f, const std::string& n) { return as_dset(f.read<T>(n)); }});
    return readers.size() - 1;
}
template<typename T> void add(const std::string& type, const std::string& name, const T& x)
{
    auto p = std::make_shared<T>(x);
    values.push_back({type + " " + name, reader<T>(type), as_dset(x),
        [p] (h5::File& f, const std::string& n) { f.write(n, *p); },
        [p] (h5::Group& f, const std::string& n) { f.write(n, *p); },
        [p] (h5::Dataset& d) { d.write(*p); }});
}

std::vector<double> specials()
{
    auto inf = std::numeric_limits<double>::infinity();
    return {0.0, -0.0, 1.0, -1.5, 0.1, 1e308, -1e308, 5e-324, 2.2250738585072014e-308, inf, -inf, std::numeric_limits<double>::quiet_NaN(), 1.0 / 3, 123456789.123456789};
}

template<typename V, std::size_t R, typename F> void add_arrays(const std::string& type, std::size_t max_extent, F gen)
{
    std::array<std::size_t, R> s{};
    std::function<void(std::size_t)> go = [&] (std::size_t a)
    {
        if (a == R)
        {
            nd::shape_t<R> shape; for (std::size_t i = 0; i < R; ++i) shape[i] = s[i];
            auto u = nd::make_unique_array<V>(shape);
            std::size_t k = 0;
            for (auto i : nd::make_access_pattern(shape)) u(i) = gen(k++);
            std::string n; for (auto x : s) n += (n.empty() ? "" : "x") + std::to_string(x);
            add<nd::shared_array<V, R>>(type, n, std::move(u).shared());
            return;
        }
        for (s[a] = 0; s[a] <= max_extent; ++s[a]) go(a + 1);
    };
    go(0);
}

void build_values()
{
    if (! values.empty()) return;
    H5Eset_auto(H5E_DEFAULT, nullptr, nullptr);
    using dim_t = mara::dimensional_value_t<1, -2, 3, double>;
    for (char c : {'a', 'z', '\0', char(200)}) add<char>("char", vf::cat(int(c)), c);
    for (int i : {0, 1, -1, 42, INT_MAX, INT_MIN}) add<int>("int", vf::cat(i), i);
    for (unsigned long i : {0ul, 1ul, ~0ul, 1ul << 40}) add<unsigned long>("ulong", vf::cat(i), i);
    for (double x : specials()) add<double>("double", vf::cat(x), x);
    for (auto& s : std::vector<std::string>{"", "a", "ab", "abc", "a b\n\t", std::string("a\0b", 3), std::string("ab\0", 3), std::string(2, '\0'), "\xc3\xa9", std::string(1000, 'x'), "z", "12", "-1"})
        add<std::string>("string", vf::cat("of ", s.size(), " '", s.substr(0, 8), "'"), s);
    for (double x : {0.0, -2.5, 1e300}) add<dim_t>("dimensional", vf::cat(x), dim_t(x));
    for (auto& r : {mara::make_rational(0), mara::make_rational(1, 2), mara::make_rational(-7, 3), mara::make_rational(INT_MAX, 2), mara::make_rational(5)}) add<mara::rational_number_t>("rational", mara::to_string(r), r);
    add<mara::arithmetic_sequence_t<int, 2>>("int[2]", "a", {3, -4});
    add<mara::arithmetic_sequence_t<double, 2>>("double[2]", "a", {3.5, -4.25});
    add<mara::arithmetic_sequence_t<double, 3>>("double[3]", "a", {1, 2, 3});
    add<mara::arithmetic_sequence_t<dim_t, 3>>("dimensional[3]", "a", {dim_t(1.), dim_t(-2.), dim_t(3.)});
    add<rec_t>("record", "a", rec_t{3, 4.5});
    add<rec_t>("record", "b", rec_t{-3, 1e-300});
    add<rec2_t>("record2", "a", rec2_t{1, 2, 3});
    for (std::size_t n = 0; n <= 4; ++n)
    {
        std::vector<int> i; std::vector<double> d; std::vector<unsigned long> u; std::vector<rec_t> r; std::vector<mara::rational_number_t> q; std::vector<mara::arithmetic_sequence_t<double, 2>> s;
        for (std::size_t k = 0; k < n; ++k) { i.push_back(int(7 * k) - 3); d.push_back(specials()[(3 * k + 1) % 14]); u.push_back(k << 35); r.push_back({int(k), 0.5 * k}); q.push_back(mara::make_rational(int(k) - 1, 3)); s.push_back({1.0 * k, -1.0 * k}); }
        auto nm = vf::cat("of ", n);
        add("vector<int>", nm, i); add("vector<double>", nm, d); add("vector<ulong>", nm, u); add("vector<record>", nm, r); add("vector<rational>", nm, q); add("vector<double[2]>", nm, s);
        add("list<double>", nm, mara::linked_list_t<double>(d.begin(), d.end()));
        add("list<int>", nm, mara::linked_list_t<int>(i.begin(), i.end()));
        add("list<record>", nm, mara::linked_list_t<rec_t>(r.begin(), r.end()));
    }
    add_arrays<double, 1>("array1<double>", 5, [] (std::size_t k) { return 0.1 * k - 1; });
    add_arrays<double, 2>("array2<double>", 3, [] (std::size_t k) { return 0.1 * k - 1; });
    add_arrays<double, 3>("array3<double>", 2, [] (std::size_t k) { return 0.1 * k - 1; });
    add_arrays<int, 2>("array2<int>", 2, [] (std::size_t k) { return int(k) - 1; });
    add_arrays<mara::arithmetic_sequence_t<double, 2>, 2>("array2<double[2]>", 2, [] (std::size_t k) { return mara::arithmetic_sequence_t<double, 2>{1.0 * k, -2.0 * k}; });
    add_arrays<rec_t, 1>("array1<record>", 3, [] (std::size_t k) { return rec_t{int(k), 1.5 * k}; });
    for (auto& x : std::vector<mara::config_parameter_t>{0, 7, -1, 0.5, -1e9, std::string(""), std::string("k"), std::string("hello world")})
        add<mara::config_parameter_t>("config parameter", as_dset(x).key, x);
    reader<nd::unique_array<double, 1>>("unique array1<double>");
    reader<nd::unique_array<double, 2>>("unique array2<double>");
    reader<nd::unique_array<int, 1>>("unique array1<int>");
    reader<nd::shared_array<int, 1>>("array1<int>");
    reader<nd::shared_array<double, 4>>("array4<double>");
}

// a read that succeeds must give exactly the stored elements
void check_read(const reader_t& r, h5::File& f, const std::string& name, const dset_t* stored, bool must_succeed)
{
    dset_t got;
    try { got = r.read(f, name); }
    catch (const std::exception& e) { CHECK(! must_succeed, "reading as ", r.name, " failed: ", e.what()); return; }
    CHECK(stored != nullptr, "read a value of type ", r.name, " where there is none");
    CHECK(got.bytes == stored->bytes, "read as ", r.name, ": ", got.bytes.size(), " bytes that differ from the ", stored->bytes.size(), " stored");
    CHECK(got.key == stored->key, "a ", stored->key, " was read as ", got.key);
    if (! got.scalar && got.shape.size() > 1) CHECK(got.shape == stored->shape, "shape changed");
}

void roundtrip(vf::ctx& c)
{
    build_values();
    for (std::size_t v = 0; v < values.size(); ++v) for (int how = 0; how < 7; ++how)
        c.each([&] (auto& o) { static const char* n[] = {"read at once", "reopen for reading", "reopen for update", "write twice", "inside groups", "through a dataset handle", "between other objects"}; o << values[v].name << ", " << n[how]; }, [&]
        {
            auto& x = values[v];
            HANDLES_BEGIN;
            {
                auto f = h5::File(fname(), "w");
                std::string name = "value";
                if (how == 3) { x.write(f, name); x.write(f, name); }
                else if (how == 4) { auto g = f.require_group("g").require_group("h"); x.write_g(g, name); name = "g/h/value"; }
                else if (how == 5) { x.write(f, name); auto d = f.open_dataset(name); x.write_d(d); }
                else if (how == 6) { f.write("a", 1); f.write("zz", std::string("other")); x.write(f, name); f.write("b", std::vector<double>{1, 2}); }
                else x.write(f, name);
                if (how == 1 || how == 4 || how == 6) { f.close(); f = h5::File(fname(), "r"); }
                if (how == 2) { f.close(); f = h5::File(fname(), "r+"); }
                check_read(readers[x.type], f, name, &x.d, true);
                check_read(readers[x.type], f, name, &x.d, true);
                if (how == 6)
                {
                    CHECK(f.read<int>("a") == 1, "neighbour changed"); CHECK(f.read<std::string>("zz") == "other", "neighbour changed");
                    CHECK((f.read<std::vector<double>>("b") == std::vector<double>{1, 2}), "neighbour changed");
                    CHECK(f.size() == 4, "the file lists ", f.size(), " objects");
                }
            }
            HANDLES_END;
            c.state(vf::hash(values[v].name)); c.step(); c.interesting(! x.d.scalar || how > 0);
        });
}

// every stored value read as every type; missing names; groups read as data
void cross(vf::ctx& c)
{
    build_values();
    for (std::size_t v = 0; v < values.size(); ++v)
        c.each([&] (auto& o) { o << "every type reads " << values[v].name; }, [&]
        {
            auto& x = values[v];
            HANDLES_BEGIN;
            {
                auto f = h5::File(fname(), "w");
                f.require_group("group");
                x.write(f, "value");
                f.close(); f = h5::File(fname(), "r");
                for (auto& r : readers)
                {
                    check_read(r, f, "value", &x.d, r.name == readers[x.type].name);
                    check_read(r, f, "missing", nullptr, false);
                    check_read(r, f, "group", nullptr, false);
                    check_read(r, f, "value/x", nullptr, false);
                    c.step(4);
                }
                check_read(readers[x.type], f, "value", &x.d, true);
            }
            HANDLES_END;
            c.interesting();
        });
}

// every value written over every other
void overwrite(vf::ctx& c)
{
    build_values();
    for (std::size_t v = 0; v < values.size(); ++v) for (std::size_t part = 0; part < 8; ++part)
        c.each([&] (auto& o) { o << "overwriting " << values[v].name << " (part " << part << ")"; }, [&]
        {
            auto& x = values[v];
            HANDLES_BEGIN;
            for (std::size_t w = part; w < values.size(); w += 8)
            {
                auto& y = values[w];
                auto f = h5::File(fname(), "w");
                x.write(f, "value");
                bool compatible = x.d.same_layout(y.d), wrote = true;
                try { y.write(f, "value"); } catch (const std::exception&) { wrote = false; }
                CHECK(wrote == compatible, y.name, (wrote ? " was accepted over " : " was refused over "), x.name);
                auto& now = wrote ? y : x;
                check_read(readers[now.type], f, "value", &now.d, true);
                CHECK(f.size() == 1, "objects appeared");
                // through a dataset handle: never partial data
                auto before = now.d;
                bool wrote2 = true;
                try { auto d = f.open_dataset("value"); y.write_d(d); } catch (const std::exception&) { wrote2 = false; }
                if (wrote2) CHECK(y.d.key == x.d.key && y.d.bytes.size() == x.d.bytes.size(), y.name, " was accepted into the dataset of ", x.name);
                auto expect = wrote2 ? y.d.bytes : before.bytes;
                auto got = readers[x.type].read(f, "value");
                CHECK(got.bytes == expect, "the dataset of ", x.name, " holds something else after writing ", y.name);
                c.step(2);
            }
            HANDLES_END;
            c.interesting();
        });
}

// ------------------------------------------------------- histories against a map
struct node_t { bool group = false; dset_t d; };
using model_t = std::map<std::string, node_t>;   // full path -> node

struct op_t { std::string what; std::function<bool(std::unique_ptr<h5::File>&, bool)> run; std::function<bool(model_t&, bool&)> model; };

template<typename Loc> void compare(Loc& loc, const model_t& m, const std::string& prefix)
{
    std::set<std::string> expect, got;
    for (auto& p : m)
    {
        if (p.first.compare(0, prefix.size(), prefix)) continue;
        auto rest = p.first.substr(prefix.size());
        if (! rest.empty() && rest.find('/') == std::string::npos) expect.insert(rest);
    }
    for (auto n : loc) got.insert(n);
    CHECK(got == expect, "listing of '", prefix, "' has ", got.size(), " names instead of ", expect.size());
    CHECK(loc.size() == expect.size(), "size of '", prefix, "'");
    for (auto& n : expect)
    {
        auto& node = m.at(prefix + n);
        if (node.group)
        {
            auto g = loc.open_group(n); compare(g, m, prefix + n + "/");
            CHECK(vf::throws([&] { loc.open_dataset(n); }), "a group was opened as a dataset");
        }
        else
        {
            CHECK(vf::throws([&] { loc.open_group(n); }), "a dataset was opened as a group");
            dset_t d;
            if (node.d.key == "double" && node.d.scalar) d = as_dset(loc.template read<double>(n));
            else if (node.d.key == "double") d = as_dset(loc.template read<std::vector<double>>(n));
            else if (node.d.key == "int") d = as_dset(loc.template read<int>(n));
            else d = as_dset(loc.template read<std::string>(n));
            CHECK(d == node.d, "'", prefix + n, "' changed");
        }
    }
}

void histories(vf::ctx& c)
{
    build_values();
    std::vector<op_t> ops;
    // the state of the real file is (file handle); the mode is part of the model
    auto parent_ok = [] (model_t& m, const std::string& path) { auto k = path.find('/'); if (k == std::string::npos) return true; auto it = m.find(path.substr(0, k)); return it != m.end() && it->second.group; };
    auto add_write = [&] (std::string path, auto value, std::string label)
    {
        auto d = as_dset(value);
        ops.push_back({"write " + label + " at " + path,
            [=] (auto& f, bool) {
                auto k = path.find('/');
                if (k == std::string::npos) f->write(path, value);
                else f->open_group(path.substr(0, k)).write(path.substr(k + 1), value);
                return true; },
            [=] (model_t& m, bool& writable) {
                if (! parent_ok(m, path) || ! writable) return false;
                auto it = m.find(path);
                if (it != m.end() && (it->second.group || ! it->second.d.same_layout(d))) return false;
                m[path].d = d; return true; }});
    };
    for (std::string p : {"a", "g", "g/a"})
    {
        add_write(p, 1.5, "1.5");
        add_write(p, -2.5, "-2.5");
        add_write(p, std::vector<double>{1, 2}, "[1,2]");
        add_write(p, std::string("xy"), "'xy'");
        add_write(p, 7, "7");
    }
    for (std::string p : {"a", "g"})
    {
        ops.push_back({"require group " + p, [=] (auto& f, bool) { f->require_group(p); return true; },
            [=] (model_t& m, bool& w) { auto it = m.find(p); if (it != m.end()) return it->second.group; if (! w) return false; m[p].group = true; return true; }});
    }
    ops.push_back({"subgroup g/a", [] (auto& f, bool) { f->open_group("g")["a"]; return true; },
        [=] (model_t& m, bool& w) { if (! parent_ok(m, "g/a")) return false; auto it = m.find("g/a"); if (it != m.end()) return it->second.group; if (! w) return false; m["g/a"].group = true; return true; }});
    ops.push_back({"reopen r", [] (auto& f, bool) { f.reset(); f = std::make_unique<h5::File>(fname(), "r"); return true; }, [] (model_t&, bool& w) { w = false; return true; }});
    ops.push_back({"reopen r+", [] (auto& f, bool) { *f = h5::File(); *f = h5::File(fname(), "r+"); return true; }, [] (model_t&, bool& w) { w = true; return true; }});
    ops.push_back({"truncate", [] (auto& f, bool) { f->close(); *f = h5::File(fname(), "w"); return true; }, [] (model_t& m, bool& w) { m.clear(); w = true; return true; }});

    int depth = c.pick(3, 4);
    std::vector<std::size_t> seq(depth);
    std::function<void(int)> go = [&] (int k)
    {
        if (k == depth)
        {
            c.each([&] (auto& o) { for (auto i : seq) o << ops[i].what << "; "; }, [&]
            {
                HANDLES_BEGIN;
                {
                    auto f = std::make_unique<h5::File>(fname(), "w");
                    model_t m; bool writable = true;
                    for (auto i : seq)
                    {
                        bool expect = ops[i].model(m, writable), did = true;
                        try { ops[i].run(f, writable); } catch (const std::exception&) { did = false; }
                        CHECK(did == expect, ops[i].what, (did ? " succeeded" : " failed"));
                        compare(*f, m, "");
                        c.step();
                        uint64_t h = writable; for (auto& p : m) h = vf::mix(h, vf::hash(p.first + "=" + (p.second.group ? "group" : p.second.d.key + p.second.d.bytes)));
                        c.state(h);
                    }
                    f.reset();
                    auto r = h5::File(fname(), "r");
                    compare(r, m, "");
                }
                HANDLES_END;
            });
            return;
        }
        for (std::size_t i = 0; i < ops.size(); ++i) { seq[k] = i; go(k + 1); }
    };
    go(0);
}

// ----------------------------------------------------------------- hyperslabs
template<std::size_t R> void slabs_of(vf::ctx& c, std::size_t max_extent, std::size_t max_jump)
{
    // all per-axis (extent, start, final, jump)
    struct ax { std::size_t n, s, f, j; };
    std::vector<ax> axes;
    for (std::size_t n = 1; n <= max_extent; ++n) for (std::size_t s = 0; s < n; ++s) for (std::size_t f = s + 1; f <= n; ++f) for (std::size_t j = 1; j <= max_jump; ++j) axes.push_back({n, s, f, j});
    std::array<std::size_t, R> pick{};
    std::function<void(std::size_t)> go = [&] (std::size_t a)
    {
        if (a == R)
        {
            c.each([&] (auto& o) { for (auto i : pick) o << "[" << axes[i].s << ":" << axes[i].f << ":" << axes[i].j << " of " << axes[i].n << "]"; }, [&]
            {
                nd::shape_t<R> shape; nd::index_t<R> start, final; nd::jumps_t<R> jumps;
                std::size_t total = 1, count = 1;
                for (std::size_t i = 0; i < R; ++i) { auto& x = axes[pick[i]]; shape[i] = x.n; start[i] = x.s; final[i] = x.f; jumps[i] = x.j; total *= x.n; count *= (x.f - x.s + x.j - 1) / x.j; }
                auto sel = nd::make_access_pattern(shape).with_start(start).with_final(final).with_jumps(jumps);
                HANDLES_BEGIN;
                {
                    auto f = h5::File(fname(), "w");
                    std::vector<double> base(total), expect(total), part(count);
                    for (std::size_t k = 0; k < total; ++k) expect[k] = base[k] = double(k);
                    for (std::size_t k = 0; k < count; ++k) part[k] = 1000.0 + k;
                    std::size_t m = 0;
                    for (std::size_t k = 0; k < total; ++k)
                    {
                        std::size_t q = k; bool in = true;
                        for (std::size_t i = R; i-- > 0;) { auto& x = axes[pick[i]]; std::size_t p = q % x.n; q /= x.n; in = in && p >= x.s && p < x.f && (p - x.s) % x.j == 0; }
                        if (in) expect[k] = part[m++];
                    }
                    CHECK(m == count, "reference");
                    std::vector<std::size_t> ext; for (auto n : shape) ext.push_back(n);
                    auto space = h5::Dataspace::simple(ext);
                    auto d = f.require_dataset("d", h5::make_datatype_for(double()), space);
                    d.write(base, h5::Dataspace::simple(ext));
                    auto fs = d.get_space();
                    fs.select(mara::make_hdf5_hyperslab(sel));
                    CHECK(fs.selection_size() == count, "selection has ", fs.selection_size(), " elements instead of ", count);
                    if (count) { auto lo = fs.selection_lower(), hi = fs.selection_upper(); CHECK(lo.size() == R && hi.size() == R, "bounds"); for (std::size_t i = 0; i < R; ++i) { auto& x = axes[pick[i]]; CHECK(lo[i] == std::size_t(x.s) && hi[i] == std::size_t(x.s + (x.f - x.s - 1) / x.j * x.j), "the selection reaches from ", lo[i], " to ", hi[i], " on axis ", i); } }
                    { auto all = fs; all.select_all(); CHECK(all.selection_size() == total, "everything selected has ", all.selection_size(), " elements"); all.select_none(); CHECK(all.selection_size() == 0, "nothing selected has elements"); CHECK(fs.selection_size() == count, "a selection of a copy changes the original"); }
                    d.write(part, fs);
                    auto got = d.read<std::vector<double>>();
                    CHECK(got == expect, "the selection was written elsewhere");
                    // a read through a selection gives its elements, or is refused
                    try { auto p = d.read<std::vector<double>>(fs); CHECK(p == part || (count == total && p == expect), "read of a selection returned ", p.size(), " elements"); } catch (const std::invalid_argument&) { }
                    // a write of the wrong number of elements is refused and changes nothing
                    auto wrong = part; wrong.push_back(5);
                    CHECK(vf::throws([&] { d.write(wrong, fs); }), "wrote too many elements");
                    CHECK(d.read<std::vector<double>>() == expect, "a refused write changed the data");
                }
                HANDLES_END;
                c.step(4); c.interesting(count != total);
            });
            return;
        }
        for (pick[a] = 0; pick[a] < axes.size(); ++pick[a]) go(a + 1);
    };
    go(0);
}
void slabs(vf::ctx& c)
{
    build_values();
    slabs_of<1>(c, c.pick(7, 12), 4);
    slabs_of<2>(c, c.pick(3, 4), 3);
    if (c.thorough()) slabs_of<3>(c, 2, 2);
}

// appending to an extensible dataset, as the time series writers do
void extend(vf::ctx& c)
{
    build_values();
    int depth = c.pick(4, 6);
    std::vector<int> sizes(depth);
    std::function<void(int)> go = [&] (int k)
    {
        if (k == depth)
        {
            c.each([&] (auto& o) { o << "extents"; for (int s : sizes) o << " " << s; }, [&]
            {
                HANDLES_BEGIN;
                std::vector<int> model;
                {
                    auto f = h5::File(fname(), "w");
                    f.require_dataset("d", h5::make_datatype_for(int()), h5::Dataspace::unlimited(0), h5::PropertyList::dataset_create().set_chunk(2));
                }
                int v = 1;
                for (int s : sizes)
                {
                    auto f = h5::File(fname(), "r+");
                    auto d = f.open_dataset("d");
                    auto old = model.size();
                    CHECK(d.get_space().size() == old, "extent ", d.get_space().size(), " instead of ", old);
                    d.set_extent(s);
                    model.resize(s, 0);
                    if (std::size_t(s) > old)
                    {
                        std::vector<int> add; for (auto k = old; k < std::size_t(s); ++k) add.push_back(model[k] = v++);
                        h5::hyperslab_t slab; slab.start = {old}; slab.count = {s - old}; slab.skips = {1}; slab.block = {1};
                        d.write(add, d.get_space().select(slab));
                    }
                    CHECK(d.read<std::vector<int>>() == model, "contents after extending");
                    CHECK(vf::throws([&] { d.set_extent(1, 1); }), "rank changed");
                    c.step();
                }
                CHECK(h5::File(fname(), "r").read<std::vector<int>>("d") == model, "contents after reopening");
                HANDLES_END;
                c.interesting();
            });
            return;
        }
        for (int s = 0; s <= 4; ++s) { sizes[k] = s; go(k + 1); }
    };
    go(0);
}

// ------------------------------------------------------------------------ trees
template<std::size_t R> void trees_of(vf::ctx& c, std::size_t depth, std::size_t branches)
{
    ref::trees<R>(depth, branches, [&] (const ref::shape<R>& s)
    {
        c.each([&] (auto& o) { o << "rank " << R << " tree " << s.str(); }, [&]
        {
            HANDLES_BEGIN;
            {
                int n = 0;
                auto t = ref::build(s).map([&n] (auto) { return n++; });
                auto ta = t.map([] (int k) { return nd::shared_array<double, 2>((nd::zeros<double>(std::size_t(1 + k % 2), std::size_t(1 + k % 3)) + 0.5 * k) | nd::to_shared()); });
                auto f = h5::File(fname(), "w");
                auto g = f.require_group("top");
                mara::write(g, "t", t); mara::write(g, "ta", ta); f.write("other", 1);
                g.close(); f.close();
                f = h5::File(fname(), "r"); g = f.open_group("top");
                decltype(t) r; decltype(ta) ra;
                mara::read(g, "t", r); mara::read(g, "ta", ra);
                CHECK(g.open_group("t").size() == t.size(), "number of stored leaves");
                auto a = ref::values(t), b = ref::values(r);
                CHECK(a == b, "values changed");
                CHECK(ref::values(t.indexes()) == ref::values(r.indexes()), "the shape of the tree changed");
                auto x = ref::values(ta), y = ref::values(ra);
                CHECK(x.size() == y.size(), "number of blocks");
                for (std::size_t i = 0; i < x.size(); ++i) CHECK(as_dset(x[i]) == as_dset(y[i]), "block ", i, " changed");
                decltype(t) bad;
                CHECK(vf::throws([&] { mara::read(g, "missing", bad); }), "read a tree that is not there");
                CHECK(vf::throws([&] { mara::read(g, "ta", bad); }), "read a tree of another type");
            }
            HANDLES_END;
            c.state(vf::mix(R, s.hash())); c.step(2); c.interesting(! s.branches.empty());
        });
    });
}
template<std::size_t R> void indexes_of(vf::ctx& c, std::size_t levels)
{
    for (std::size_t l = 0; l <= levels; ++l)
        c.each([&] (auto& o) { o << "rank " << R << " index names at level " << l; }, [&]
        {
            // all coordinates on the axes and diagonals of the level
            std::size_t n = std::size_t(1) << l;
            std::set<std::string> names; std::size_t count = 0;
            for (std::size_t k = 0; k < n; ++k) for (std::size_t mask = 1; mask < (1u << R); ++mask)
            {
                ref::addr<R> a; a.level = l; for (std::size_t i = 0; i < R; ++i) a.x[i] = (mask >> i) & 1 ? k : (n - 1) / 2;
                auto s = mara::format_tree_index(a.index());
                auto b = ref::addr<R>::of(mara::read_tree_index<R>(s));
                CHECK(a == b, "'", s, "' stands for another index");
                CHECK(s.find('/') == std::string::npos && s != "." && ! s.empty(), "'", s, "' cannot be an object name");
                names.insert(s); ++count;
            }
            std::set<ref::addr<R>> seen;
            for (auto& s : names) CHECK(seen.insert(ref::addr<R>::of(mara::read_tree_index<R>(s))).second, "two names for one index");
            if constexpr (R > 1) CHECK(vf::throws([&] { mara::read_tree_index<R>("1:0"); }), "an index of another rank was accepted");
            c.interesting(); c.step(count);
        });
}
void trees(vf::ctx& c)
{
    build_values();
    trees_of<1>(c, 5, c.pick(5, 8));
    trees_of<2>(c, 4, c.pick(3, 5));
    trees_of<3>(c, 3, c.pick(2, 3));
    indexes_of<1>(c, c.pick(12, 16));
    indexes_of<2>(c, c.pick(10, 13));
    indexes_of<3>(c, c.pick(8, 10));
}

// ------------------------------------------------------ configurations, schedules
void records(vf::ctx& c)
{
    build_values();
    // configurations: every assignment of values to three options
    std::vector<int> is = {0, -5, 1 << 30}; std::vector<double> ds = {0.0, 0.1, -1e300}; std::vector<std::string> ss = {"", "x", "some text", std::string(300, 'q')};
    for (auto i : is) for (auto d : ds) for (auto& s : ss) for (auto& s2 : ss)
        c.each([&] (auto& o) { o << "configuration " << i << " " << d << " '" << s.substr(0, 12) << "' '" << s2.substr(0, 12) << "'"; }, [&]
        {
            HANDLES_BEGIN;
            {
                auto t = mara::make_config_template().item("count", 1).item("length", 2.0).item("name", "default").item("other", "z").item("untouched", 3);
                auto cfg = t.create().set("count", i).set("length", d).set("name", s).set("other", s2);
                { auto f = h5::File(fname(), "w"); auto g = f.open_group("/"); mara::write(g, "cfg", cfg); }
                auto f = h5::File(fname(), "r");
                auto m = mara::read_config(f.open_group("cfg"));
                auto back = t.create().update(m);
                CHECK(m.size() == 5, "stored ", m.size(), " options");
                CHECK(back.get_int("count") == i && back.get_double("length") == d && back.get_string("name") == s && back.get_string("other") == s2 && back.get_int("untouched") == 3, "configuration changed");
                for (auto& item : cfg) CHECK(m.at(item.first) == item.second, "option ", item.first);
            }
            HANDLES_END;
            c.interesting(); c.step();
        });
    // schedules: every combination of up to three tasks
    for (int mask = 0; mask < 8; ++mask) for (int n : {0, 1, 12345}) for (double t : {0.0, -1.0, 0.1, 1e6})
        c.each([&] (auto& o) { o << "schedule tasks " << mask << " performed " << n << " last " << t; }, [&]
        {
            HANDLES_BEGIN;
            {
                mara::schedule_t s;
                const char* names[] = {"write_checkpoint", "a", "record time series"};
                for (int k = 0; k < 3; ++k) if (mask >> k & 1) { mara::schedule_t::task_t x; x.name = names[k]; x.num_times_performed = n + k; x.last_performed = t * (k + 1); s.insert(x); }
                { auto f = h5::File(fname(), "w"); auto g = f.open_group("/"); mara::write(g, "schedule", s); mara::write(g, "schedule", s); }
                auto f = h5::File(fname(), "r");
                auto g = f.open_group("/");
                mara::schedule_t r; mara::read(g, "schedule", r);
                int count = 0;
                for (auto& p : r)
                {
                    ++count;
                    int k = 0; while (k < 3 && p.first != names[k]) ++k;
                    CHECK(k < 3 && (mask >> k & 1), "task ", p.first, " appeared");
                    CHECK(p.second.name == p.first && p.second.num_times_performed == n + k && p.second.last_performed == t * (k + 1), "task ", p.first, " changed");
                }
                CHECK(count == __builtin_popcount(mask), "number of tasks");
            }
            HANDLES_END;
            c.interesting(mask); c.step();
        });
}

// ------------------------------------------------- handles and refused operations
void handles(vf::ctx& c)
{
    build_values();
    // all sequences of handle moves over two slots of each kind
    const char* names[] = {"file=open", "file2=open", "file=move(file2)", "file=File()", "group=open g", "group=open h", "group2=move(group)", "group=Group()", "dset=open d", "dset=open e", "dset2=move(dset)", "dset=Dataset()", "group.close", "dset.close", "failed open"};
    const int N = 15;
    int depth = c.pick(3, 4);
    std::vector<int> seq(depth);
    std::function<void(int)> go = [&] (int k)
    {
        if (k == depth)
        {
            c.each([&] (auto& o) { for (int i : seq) o << names[i] << "; "; }, [&]
            {
                auto n1 = fname(), n2 = vf::scratch() + "/t2.h5";
                for (auto& n : {n1, n2}) { auto f = h5::File(n, "w"); f.require_group("g"); f.require_group("h"); f.write("d", 1.0); f.write("e", 2.0); }
                HANDLES_BEGIN;
                {
                    h5::File base(n1, "r");
                    h5::File file, file2; h5::Group g, g2; h5::Dataset d, d2;
                    for (int i : seq)
                    {
                        switch (i)
                        {
                            case 0: file = h5::File(n1, "r"); break;
                            case 1: file2 = h5::File(n1, "r"); break;
                            case 2: file = std::move(file2); break;
                            case 3: file = h5::File(); break;
                            case 4: g = base.open_group("g"); break;
                            case 5: g = base.open_group("h"); break;
                            case 6: g2 = std::move(g); break;
                            case 7: g = h5::Group(); break;
                            case 8: d = base.open_dataset("d"); CHECK(d.read<double>() == 1.0, "dataset d"); break;
                            case 9: d = base.open_dataset("e"); CHECK(d.read<double>() == 2.0, "dataset e"); break;
                            case 10: d2 = std::move(d); break;
                            case 11: d = h5::Dataset(); break;
                            case 12: g.close(); break;
                            case 13: d.close(); break;
                            case 14:
                                CHECK(vf::throws([&] { h5::File(vf::scratch() + "/missing.h5", "r"); }), "opened a missing file");
                                CHECK(vf::throws([&] { h5::File(vf::scratch() + "/missing.h5", "r+"); }), "opened a missing file");
                                CHECK(vf::throws([&] { h5::File(n1, "x"); }), "accepted a mode");
                                CHECK(vf::throws([&] { h5::File(vf::scratch() + "/nodir/f.h5", "w"); }), "created a file without a directory");
                                CHECK(vf::throws([&] { base.open_group("missing"); }), "opened a missing group");
                                CHECK(vf::throws([&] { base.open_dataset("missing"); }), "opened a missing dataset");
                                CHECK(vf::throws([&] { base.write("new", 1.0); }), "wrote to a read-only file");
                                CHECK(vf::throws([&] { base.write("d", 3.0); }), "wrote to a read-only file");
                                CHECK(vf::throws([&] { base.require_group("new"); }), "wrote to a read-only file");
                                CHECK(! h5::File::exists(vf::scratch() + "/missing.h5"), "missing file");
                                CHECK(h5::File::exists(n1), "existing file");
                                break;
                        }
                        // everything reachable still works
                        CHECK(base.read<double>("d") == 1.0 && base.size() == 4, "base file");
                        if (file.is_open()) CHECK(file.read<double>("e") == 2.0, "file");
                        if (g.is_open()) CHECK(g.size() == 0, "group");
                        if (g2.is_open()) CHECK(g2.size() == 0, "group");
                        c.step();
                    }
                }
                HANDLES_END;
                c.interesting();
            });
            return;
        }
        for (int i = 0; i < N; ++i) { seq[k] = i; go(k + 1); }
    };
    go(0);
    // object names of every length around the buffer of the iterator
    for (std::size_t len : {1ul, 100ul, 1000ul, 1022ul, 1023ul, 1024ul, 1025ul, 3000ul})
        c.each([&] (auto& o) { o << "object name of " << len << " characters"; }, [&]
        {
            HANDLES_BEGIN;
            {
                auto f = h5::File(fname(), "w");
                std::string n(len, 'n'); f.write(n, 4.0);
                CHECK(f.read<double>(n) == 4.0, "value"); double x0 = 0.0; f.read(n, x0); CHECK(x0 == 4.0, "read into a variable");
                try { int k = 0; for (auto x : f) { CHECK(x == n, "the listed name has ", x.size(), " characters"); ++k; } CHECK(k == 1, "listed ", k, " names"); }
                catch (const std::overflow_error&) { CHECK(len > 1000, "refused"); }
            }
            HANDLES_END;
            c.interesting();
        });
}

} // namespace

template<> struct h5::hdf5_type_info<rec_t>
{
    using native_type = rec_t;
    static auto make_datatype_for(const native_type&) { return h5::Datatype::compound<rec_t>({h5_compound_type_member(rec_t, a), h5_compound_type_member(rec_t, b)}); }
    static auto make_dataspace_for(const native_type&) { return Dataspace::scalar(); }
    static auto convert_to_writable(const native_type& value) { return value; }
    static auto prepare(const Datatype&, const Dataspace&) { return native_type(); }
    static auto finalize(native_type&& value) { return std::move(value); }
    static auto get_address(const native_type& value) { return &value; }
    static auto get_address(native_type& value) { return &value; }
};
template<> struct h5::hdf5_type_info<rec2_t>
{
    using native_type = rec2_t;
    static auto make_datatype_for(const native_type&) { return h5::Datatype::compound<rec2_t>({h5_compound_type_member(rec2_t, a), h5_compound_type_member(rec2_t, b), h5_compound_type_member(rec2_t, n)}); }
    static auto make_dataspace_for(const native_type&) { return Dataspace::scalar(); }
    static auto convert_to_writable(const native_type& value) { return value; }
    static auto prepare(const Datatype&, const Dataspace&) { return native_type(); }
    static auto finalize(native_type&& value) { return std::move(value); }
    static auto get_address(const native_type& value) { return &value; }
    static auto get_address(native_type& value) { return &value; }
};

int main(int argc, char** argv)
{
    return vf::main(argc, argv, {{"roundtrip", roundtrip}, {"cross", cross}, {"overwrite", overwrite}, {"histories", histories}, {"slabs", slabs}, {"extend", extend}, {"trees", trees}, {"records", records}, {"handles", handles}});
}
