// C09: run configurations.
#include "vf.hpp"
#include "core_hdf5.hpp"
#include "core_ndarray.hpp"
#include "app_config.hpp"
#include "app_serialize.hpp"

namespace {

using param = mara::config_parameter_t;
using pmap = std::map<std::string, param>;

std::string show(const param& p) { std::ostringstream o; o.precision(17); o << "idsx"[p.index()] << ":"; std::visit([&] (auto& v) { o << v; }, p); return o.str(); }
std::string show(const pmap& m) { std::string s; for (auto& p : m) s += p.first + "=" + show(p.second) + " "; return s; }
bool same(const param& a, const param& b) { return a.index() == b.index() && show(a) == show(b); }

// what a text means for an option of the type of `like`: 1 a value, 0 refused, -1 either
int meaning(const std::string& text, const param& like, param& out)
{
    if (like.index() == 2) { out = text; return 1; }
    bool space = ! text.empty() && isspace((unsigned char) text[0]);
    char* end = nullptr; errno = 0;
    if (like.index() == 0)
    {
        long long v = strtoll(text.c_str(), &end, 10);
        if (end == text.c_str() || std::size_t(end - text.c_str()) != text.size()) return 0;
        if (errno || v > INT_MAX || v < INT_MIN) return 0;
        out = int(v);
    }
    else
    {
        double v = strtod(text.c_str(), &end);
        if (end == text.c_str() || std::size_t(end - text.c_str()) != text.size()) return 0;
        if (errno && std::isinf(v)) return 0;
        if (errno) return -1;
        out = v;
    }
    return space ? -1 : 1;
}

// the observable contents of a configuration
void compare(const mara::config_t& c, const pmap& model)
{
    std::size_t n = 0;
    for (auto& p : c)
    {
        ++n;
        CHECK(model.count(p.first), "option ", p.first, " was not declared");
        CHECK(same(p.second, model.at(p.first)), p.first, " is ", show(p.second), " instead of ", show(model.at(p.first)));
    }
    CHECK(n == model.size(), "number of options");
    for (auto& p : model)
    {
        auto k = p.first;
        bool i = ! vf::throws([&] { auto v = c.get_int(k); CHECK(same(param(v), p.second), "get_int(", k, ")"); });
        bool d = ! vf::throws([&] { auto v = c.get_double(k); CHECK(same(param(v), p.second), "get_double(", k, ")"); });
        bool s = ! vf::throws([&] { auto v = c.get_string(k); CHECK(same(param(v), p.second), "get_string(", k, ")"); });
        CHECK(i == (p.second.index() == 0) && d == (p.second.index() == 1) && s == (p.second.index() == 2), "option ", k, " can be read as another type");
    }
    CHECK(vf::throws([&] { c.get_int("nope"); }) && vf::throws([&] { c.get_double("nope"); }) && vf::throws([&] { c.get_string("nope"); }), "read an undeclared option");
}

const std::vector<std::string> texts = {"7", "-3", "0", "2147483647", "2147483648", "-2147483648", "99999999999999999999", "1.5", "-2.5e3", "1e3", "7x", "x7", "x", "", "1.5.2", "1,5", "7 ", " 7", "0x10", "1e400", "inf", "nope=3", "--1", "+4", "5e", "1e+", ".5", "5.", "3-4", "text with spaces", "\t", "007", "1'000"};

mara::config_template_t make_template() { return mara::make_config_template().item("i", 1).item("d", 2.0).item("s", std::string("three")).item("j", -1); }
const pmap defaults = {{"i", 1}, {"d", 2.0}, {"s", std::string("three")}, {"j", -1}};

// ---- every text for every option, through set, update and the command line
void text_values(vf::ctx& c)
{
    std::vector<std::string> all = texts;
    // every text of up to three (four) characters over a small alphabet
    const std::string alphabet = "01-.ex ";
    std::function<void(std::string, int)> gen = [&] (std::string p, int left) { if (! p.empty()) all.push_back(p); if (left) for (char ch : alphabet) gen(p + ch, left - 1); };
    gen("", c.pick(3, 5));
    for (auto& key : {"i", "d", "s", "nope", ""}) for (auto& t : all)
        c.each([&] (auto& o) { o << key << " = '" << t << "'"; }, [&]
        {
            auto base = make_template().create();
            param v; int m = defaults.count(key) ? meaning(t, defaults.at(key), v) : 0;
            for (int how = 0; how < 4; ++how)
            {
                auto expect = defaults;
                mara::config_t r;
                bool ok = true;
                try {
                    if (how == 0) r = base.set(key, std::string(t));
                    if (how == 1) r = base.update(mara::config_string_map_t{{key, t}});
                    if (how == 2) { auto arg = std::string(key) + "=" + t; const char* argv[] = {"prog", arg.c_str()}; r = base.update(mara::argv_to_string_map(2, argv)); }
                    if (how == 3) r = make_template().create().set(key, std::string(t));
                }
                catch (const std::exception&) { ok = false; }
                if (m >= 0) CHECK(ok == (m == 1), "'", t, "' for ", key, (ok ? " was accepted" : " was refused"));
                if (ok && m == 1) expect[key] = v;
                if (ok && m < 0) for (auto& p : r) if (p.first == key) expect[key] = p.second;
                if (ok) compare(r, expect);
                compare(base, defaults);
            }
            c.step(4); c.interesting();
        });
}

// ---- all histories of updates
struct op_t { std::string what; std::function<mara::config_t(const mara::config_t&)> run; std::function<bool(pmap&)> model; };

void histories(vf::ctx& c)
{
    std::vector<op_t> ops;
    auto put = [] (pmap& m, const std::string& k, const param& v) { if (! m.count(k) || m[k].index() != v.index()) return false; m[k] = v; return true; };
    std::vector<param> vals = {5, 0, -2.5, std::string("word"), std::string("9")};
    for (std::string k : {"i", "d", "s", "nope"})
        for (auto& v : vals)
        {
            if (v.index() == 2) continue;
            ops.push_back({"set " + k + " " + show(v), [=] (const mara::config_t& x) { return x.set(k, v); }, [=] (pmap& m) { return put(m, k, v); }});
        }
    for (std::string k : {"i", "d", "s", "nope"})
        for (std::string t : {"word", "9"})
            ops.push_back({"set " + k + " '" + t + "'", [=] (const mara::config_t& x) { return x.set(k, t); }, [=] (pmap& m) { param v; if (! m.count(k) || meaning(t, m[k], v) != 1) return false; m[k] = v; return true; }});
    auto upd = [&] (std::string name, pmap u)
    {
        ops.push_back({"update {" + name + "}", [=] (const mara::config_t& x) { return x.update(u); }, [=] (pmap& m) { auto n = m; for (auto& p : u) if (! put(n, p.first, p.second)) return false; m = n; return true; }});
    };
    upd("empty", {}); upd("i,d", {{"i", 11}, {"d", 0.125}}); upd("i,s", {{"i", 12}, {"s", std::string("")}}); upd("d,nope", {{"d", 0.5}, {"nope", 1}}); upd("d,i wrong", {{"d", 0.75}, {"i", 0.5}}); upd("all", {{"i", 3}, {"d", -1.0}, {"s", std::string("q")}, {"j", 9}});
    auto args = [&] (std::vector<std::string> a)
    {
        std::string name; for (auto& x : a) name += x + " ";
        ops.push_back({"arguments " + name, [=] (const mara::config_t& x) { std::vector<const char*> v{"prog"}; for (auto& s : a) v.push_back(s.c_str()); return x.update(mara::argv_to_string_map(int(v.size()), v.data())); },
            [=] (pmap& m) { auto n = m; std::set<std::string> seen; for (auto& s : a) { auto e = s.find('='); if (e == std::string::npos) continue; auto k = s.substr(0, e); param v; if (! seen.insert(k).second || ! n.count(k) || meaning(s.substr(e + 1), n[k], v) != 1) return false; n[k] = v; } m = n; return true; }});
    };
    args({"i=21", "s=a=b"}); args({"s=", "d=3"}); args({"i=1", "i=2"}); args({"i=8", "d=oops"}); args({"flag", "j=4"});
    ops.push_back({"store and reload", [] (const mara::config_t& x) {
            auto fn = vf::scratch() + "/c.h5";
            { auto f = h5::File(fn, "w"); mara::write_config(f.require_group("cfg"), x); }
            return make_template().create().update(mara::read_config(h5::File(fn, "r").open_group("cfg")));
        }, [] (pmap&) { return true; }});
    ops.push_back({"fresh", [] (const mara::config_t&) { return make_template().create(); }, [] (pmap& m) { m = defaults; return true; }});

    int depth = c.pick(3, 4);
    for (std::size_t a = 0; a < ops.size(); ++a) for (std::size_t b = 0; b < ops.size(); ++b)
        c.each([&] (auto& o) { o << ops[a].what << "; " << ops[b].what << "; and every continuation of " << depth - 2; }, [&]
        {
            std::function<void(const mara::config_t&, const pmap&, int)> go = [&] (const mara::config_t& x, const pmap& m, int k)
            {
                if (k == depth) return;
                for (std::size_t i = 0; i < ops.size(); ++i)
                {
                    if (k == 0 && i != a) continue;
                    if (k == 1 && i != b) continue;
                    auto n = m; bool expect = ops[i].model(n), ok = true;
                    mara::config_t y;
                    try { y = ops[i].run(x); } catch (const std::exception&) { ok = false; }
                    CHECK(ok == expect, ops[i].what, (ok ? " was accepted" : " was refused"), " on ", show(m));
                    compare(x, m);                        // the source never changes
                    if (! ok) { c.step(); if (k < 2) go(x, m, k + 1); continue; }
                    compare(y, n);
                    c.step(); c.state(vf::hash(show(n)));
                    go(y, n, k + 1);
                }
            };
            auto base = make_template().create();
            go(base, defaults, 0);
            c.interesting();
        });
}

// ---- templates: every sequence of declarations; a later one replaces an earlier one
void templates(vf::ctx& c)
{
    std::vector<std::pair<std::string, param>> items = {{"a", 1}, {"a", 2.5}, {"a", std::string("t")}, {"b", 3}, {"b", std::string("u")}, {"c", 0.5}};
    int depth = c.pick(4, 5);
    std::vector<int> seq;
    std::function<void()> go = [&]
    {
        c.each([&] (auto& o) { o << "declare"; for (int i : seq) o << " " << items[i].first << "=" << show(items[i].second); }, [&]
        {
            auto t = mara::make_config_template(); pmap m;
            for (int i : seq)
            {
                auto before = t.create(); auto mb = m;
                auto& it = items[i];
                mara::config_template_t n;
                switch (it.second.index())
                {
                    case 0: n = t.item(it.first.c_str(), std::get<0>(it.second)); break;
                    case 1: n = t.item(it.first.c_str(), std::get<1>(it.second)); break;
                    case 2: n = t.item(it.first.c_str(), std::get<2>(it.second)); break;
                }
                m[it.first] = it.second;
                compare(t.create(), mb); compare(before, mb);
                compare(n.create(), m);
                t = n;
                c.step(); c.state(vf::hash(show(m)));
            }
            for (auto& p : m) for (auto& it : items)
            {
                bool ok = true; mara::config_t r;
                try { r = t.create().set(p.first, param(it.second)); } catch (const std::exception&) { ok = false; }
                CHECK(ok == (it.second.index() == p.second.index()), "type of ", p.first);
                if (ok) { auto e = m; e[p.first] = it.second; compare(r, e); }
            }
            c.interesting(seq.size() > 1);
        });
        if (int(seq.size()) < depth) for (std::size_t i = 0; i < items.size(); ++i) { seq.push_back(int(i)); go(); seq.pop_back(); }
    };
    go();
}

// ---- command lines: every sequence of arguments
void arguments(vf::ctx& c)
{
    std::vector<std::string> alpha = {"a=1", "a=2", "b=", "b=x=y", "=v", "plain", "--c=3", "c d=e f", "a", "=", ""};
    int depth = c.pick(4, 5);
    std::vector<int> seq;
    std::function<void()> go = [&]
    {
        c.each([&] (auto& o) { o << "arguments"; for (int i : seq) o << " '" << alpha[i] << "'"; }, [&]
        {
            std::vector<const char*> v; for (int i : seq) v.push_back(alpha[i].c_str());
            v.push_back(nullptr);
            std::map<std::string, std::string> m; bool dup = false;
            for (int i : seq) { auto& s = alpha[i]; auto e = s.find('='); if (e == std::string::npos) continue; dup = dup || m.count(s.substr(0, e)); m[s.substr(0, e)] = s.substr(e + 1); }
            std::map<std::string, std::string> r; bool ok = true;
            try { r = mara::argv_to_string_map(int(seq.size()), v.data()); } catch (const std::exception&) { ok = false; }
            CHECK(ok == ! dup, (ok ? "an option given twice was accepted" : "the arguments were refused"));
            if (ok) CHECK(r == m, "parsed ", r.size(), " options instead of ", m.size());
            c.step(); c.interesting(seq.size() > 1);
        });
        if (int(seq.size()) < depth) for (std::size_t i = 0; i < alpha.size(); ++i) { seq.push_back(int(i)); go(); seq.pop_back(); }
    };
    go();
}
}

int main(int argc, char** argv)
{
    H5Eset_auto(H5E_DEFAULT, nullptr, nullptr);
    return vf::main(argc, argv, {{"texts", text_values}, {"histories", histories}, {"templates", templates}, {"arguments", arguments}});
}
