// C10: recurring tasks. Explicit-state exploration of the real schedule
// against a reference; all times and intervals are exact binary fractions.
#include "vf.hpp"
#include "core_hdf5.hpp"
#include "core_ndarray.hpp"
#include "app_schedule.hpp"
#include "app_serialize.hpp"

namespace {

struct state_t { double time = 0; mara::schedule_t schedule; std::string trail; };

struct task_ref { int count = 0; double last = 0; bool due = false; };
using model_t = std::map<std::string, task_ref>;

std::string show(const model_t& m, double t) { std::ostringstream o; o << "t=" << t; for (auto& p : m) o << " " << p.first << "(n=" << p.second.count << " last=" << p.second.last << (p.second.due ? " due)" : ")"); return o.str(); }

void compare(const mara::schedule_t& s, const model_t& m)
{
    CHECK(s.size() == m.size(), "number of tasks ", s.size());
    std::size_t n = 0;
    for (auto& p : s)
    {
        ++n;
        auto it = m.find(p.first);
        CHECK(it != m.end(), "task ", p.first, " appeared");
        CHECK(p.second.name == p.first, "name of ", p.first, " is ", p.second.name);
        auto& r = it->second;
        CHECK(p.second.num_times_performed == r.count && s.num_times_performed(p.first) == r.count, p.first, " performed ", p.second.num_times_performed, " times instead of ", r.count);
        CHECK(p.second.last_performed == r.last && s.last_performed(p.first) == r.last, p.first, " scheduled at ", p.second.last_performed, " instead of ", r.last);
        CHECK(p.second.is_due == r.due && s.is_due(p.first) == r.due, p.first, (r.due ? " should be due" : " should not be due"));
        CHECK(s.count(p.first) == 1 && s.at(p.first).name == p.first, "lookup of ", p.first);
    }
    CHECK(n == m.size(), "iteration");
    CHECK(s.count("nope") == 0 && vf::throws([&] { s.at("nope"); }) && vf::throws([&] { s.is_due("nope"); }) && vf::throws([&] { s.last_performed("nope"); }) && vf::throws([&] { s.num_times_performed("nope"); }), "an undeclared task was found");
}

// each distinct schedule is stored and read back through a real file once
mara::schedule_t reload(const mara::schedule_t& s)
{
    static std::map<std::string, mara::schedule_t> done;
    std::ostringstream key; key.precision(17);
    for (auto& p : s) key << p.first << "|" << p.second.name << "|" << p.second.num_times_performed << "|" << p.second.last_performed << "|" << p.second.is_due << ";";
    auto it = done.find(key.str());
    if (it != done.end()) return it->second;
    auto fn = vf::scratch() + "/s.h5";
    { auto f = h5::File(fn, "w"); mara::write_schedule(f.require_group("schedule"), s); }
    return done[key.str()] = mara::read_schedule(h5::File(fn, "r").open_group("schedule"));
}

const std::vector<std::string> names = {"checkpoint", "series"};

void histories(vf::ctx& c)
{
    std::vector<double> intervals = {0.0, 0.25, 0.5, 1.0, 1.5};
    std::vector<double> steps = {0.0, 0.25, 0.5, 1.25, 4.0};
    int depth = c.pick(4, 5);
    enum { N = 5 + 2 + 1 + 1 + 2 + 1 };   // advance and mark; complete a, b; run what is due; reload; mark by hand, mark one only; run tasks that mark others
    for (auto ia : intervals) for (auto ib : intervals) for (int start = 0; start < 2; ++start) for (int first = 0; first < N; ++first)
        c.each([&] (auto& o) { o << "intervals " << ia << ", " << ib << (start ? ", both due at the start" : "") << ", all histories of " << depth << " steps beginning with operation " << first; }, [&]
        {
            std::set<std::string> seen;
            std::function<void(const state_t&, const model_t&, int)> go = [&] (const state_t& s, const model_t& m, int k)
            {
                if (k == depth) return;
                for (int op = 0; op < N; ++op)
                {
                    if (k == 0 && op != first) continue;
                    auto t = s; auto n = m;
                    auto mark = [&] (const std::string& name, double iv) { if (t.time - m.at(name).last >= iv) { n[name].due = true; n[name].last += iv; } };
                    if (op < 5)
                    {
                        t.time += steps[op];
                        auto before = t;
                        t.schedule = mara::mark_tasks_in(t, t.time, {{names[0], ia}, {names[1], ib}});
                        mark(names[0], ia); mark(names[1], ib);
                        compare(before.schedule, m);
                    }
                    else if (op < 7)
                    {
                        auto& name = names[op - 5];
                        auto before = t;
                        t = mara::complete_task_in(t, name);
                        CHECK(t.time == before.time, "time changed");
                        n[name].count += 1; n[name].due = false;
                        compare(before.schedule, m);
                    }
                    else if (op == 7)
                    {
                        // the tasks that are due run once each, in the order given, on the result of the one before
                        using fn = std::function<state_t(const state_t&)>;
                        auto task = [] (std::string name) { return fn([name] (const state_t& x) { auto y = mara::complete_task_in(x, name); y.trail += name + ";"; return y; }); };
                        t.trail = "";
                        auto before = t;
                        t = mara::run_scheduled_tasks(t, std::vector<std::pair<std::string, fn>>{{names[1], task(names[1])}, {names[0], task(names[0])}});
                        std::string expect;
                        for (auto& name : {names[1], names[0]}) if (m.at(name).due) { expect += name + ";"; n[name].count += 1; n[name].due = false; }
                        CHECK(t.trail == expect, "tasks run: ", t.trail, " instead of ", expect);
                        CHECK(before.trail == "" && t.time == before.time, "state");
                        compare(before.schedule, m);
                    }
                    else if (op == 8)
                    {
                        if (m.at(names[0]).due || m.at(names[1]).due) continue;   // checkpoints are written when nothing is pending
                        t.schedule = reload(t.schedule);
                    }
                    else if (op == 9) { t.schedule.mark_as_due(names[0]); n[names[0]].due = true; }
                    else if (op == 11)
                    {
                        // a task that makes another one due: that one waits for its turn
                        using fn = std::function<state_t(const state_t&)>;
                        auto task = [] (std::string name, std::string other) { return fn([=] (const state_t& x) { auto y = mara::complete_task_in(x, name); y.schedule.mark_as_due(other); y.trail += name + ";"; return y; }); };
                        t.trail = "";
                        t = mara::run_scheduled_tasks(t, std::vector<std::pair<std::string, fn>>{{names[0], task(names[0], names[1])}, {names[1], task(names[1], names[0])}});
                        std::string expect;
                        for (int i : {0, 1}) if (m.at(names[i]).due) { expect += names[i] + ";"; n[names[i]].count += 1; n[names[i]].due = false; n[names[1 - i]].due = true; }
                        CHECK(t.trail == expect, "tasks run: ", t.trail, " instead of ", expect);
                    }
                    else
                    {
                        t.schedule = mara::mark_tasks_in(t, t.time, {{names[1], ib}});
                        mark(names[1], ib);
                    }
                    compare(t.schedule, n);
                    c.step();
                    auto key = show(n, t.time);
                    c.state(vf::hash(key + vf::cat(ia, " ", ib)));
                    if (! seen.insert(key + std::to_string(k)).second) continue;
                    go(t, n, k + 1);
                }
            };
            state_t s; model_t m;
            for (auto& n : names) { if (start) s.schedule.create_and_mark_as_due(n); else s.schedule.create(n); m[n].due = start; }
            compare(s.schedule, m);
            CHECK(vf::throws([&] { s.schedule.mark_as_due("nope"); }) && vf::throws([&] { s.schedule.mark_as_completed("nope"); }) && vf::throws([&] { mara::complete_task_in(s, "nope"); })
               && vf::throws([&] { mara::mark_tasks_in(s, 1.0, {{"nope", 0.5}}); }), "an undeclared task was accepted");
            compare(s.schedule, m);
            go(s, m, 0);
            c.interesting();
        });
}

// runs: time advances in all patterns of steps shorter than the interval; after
// any time t the task has run once at the start and once per whole interval
void cadence(vf::ctx& c)
{
    int depth = c.pick(5, 8);
    for (double iv : {0.25, 0.5, 0.75, 2.0}) for (int save = 0; save < 3; ++save) for (int dt0 = 1; dt0 <= 4; ++dt0) for (int dt1 = 1; dt1 <= 4; ++dt1)
        c.each([&] (auto& o) { o << "interval " << iv << ", save and reload " << (save == 0 ? "never" : save == 1 ? "after every step" : "after every second step") << ", runs of " << depth << " steps, the first of " << dt0 << "/4 and " << dt1 << "/4 of the interval"; }, [&]
        {
            std::function<void(state_t, int)> go = [&] (state_t s, int k)
            {
                CHECK(s.schedule.num_times_performed("a") == 1 + int(std::floor(s.time / iv)), "at time ", s.time, " performed ", s.schedule.num_times_performed("a"), " times");
                CHECK(s.schedule.last_performed("a") == iv * std::floor(s.time / iv), "at time ", s.time, " last scheduled at ", s.schedule.last_performed("a"));
                CHECK(! s.schedule.is_due("a"), "still due");
                if (k == depth) return;
                for (int dt = 1; dt <= 4; ++dt)
                {
                    if (k == 0 && dt != dt0) continue;
                    if (k == 1 && dt != dt1) continue;
                    if (k > 4 && dt != 1 && dt != 4) continue;
                    auto t = s;
                    t.time += iv * dt / 4;
                    t.schedule = mara::mark_tasks_in(t, t.time, {{"a", iv}});
                    if (t.schedule.is_due("a")) t = mara::complete_task_in(t, "a");
                    if (save == 1 || (save == 2 && k % 2)) if (k < 5) t.schedule = reload(t.schedule);
                    c.step();
                    go(t, k + 1);
                }
            };
            state_t s; s.schedule.create_and_mark_as_due("a"); s = mara::complete_task_in(s, "a");
            go(s, 0);
            c.interesting();
        });
}

// any set of tasks, in any order of declaration, survives a reload
void stored(vf::ctx& c)
{
    std::vector<std::string> all = {"a", "b", "write_checkpoint", "record_time_series", "with space", "z.z", "A", "a-1"};
    for (unsigned mask = 0; mask < (1u << all.size()); ++mask) for (int v = 0; v < 3; ++v)
        c.each([&] (auto& o) { o << "tasks " << mask << " values " << v; }, [&]
        {
            mara::schedule_t s; model_t m;
            for (std::size_t i = 0; i < all.size(); ++i) if (mask >> i & 1)
            {
                mara::schedule_t::task_t t; t.name = all[i]; t.num_times_performed = v == 2 ? INT_MAX - int(i) : int(i) * v; t.last_performed = v == 0 ? 0.0 : v == 1 ? 0.1 * i : -1e200 / (1 + i);
                s.insert(t); m[all[i]].count = t.num_times_performed; m[all[i]].last = t.last_performed;
            }
            compare(s, m);
            auto r = reload(s); compare(r, m);
            auto r2 = reload(r); compare(r2, m);
            if (mask) { auto n = all[__builtin_ctz(mask)]; r2.create(n); m[n] = task_ref(); compare(r2, m); }
            c.step(2); c.interesting(mask & (mask - 1));
        });
}
}

int main(int argc, char** argv)
{
    H5Eset_auto(H5E_DEFAULT, nullptr, nullptr);
    return vf::main(argc, argv, {{"histories", histories}, {"cadence", cadence}, {"stored", stored}});
}
