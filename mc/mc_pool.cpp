// Thread-pool scenarios: every interleaving (within the deviation bound) of
// real callers with real workers, over the real mara::thread_pool_t.
#include "mcrt.hpp"
#include "core_thread_pool.hpp"
#include <atomic>
#include <condition_variable>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

using mara::thread_pool_t;

// Harness bookkeeping. Plain members: written by the one task that owns the
// slot, read by thread 0 only after something that must order the two.
struct Ledger
{
    int ran[16] = {};
};

#define REQUIRE(c) do { if (!(c)) mcrt::fail(std::string("required: ") + #c + " (" + __func__ + ")"); } while (0)

static int value_of(int n) { return 100 + n * n; }

// Submit T tasks, collect all results in submission order.
static void submit_and_get(int workers, int tasks)
{
    Ledger l;
    {
        thread_pool_t pool(workers);
        std::vector<std::future<int>> f;
        for (int n = 0; n < tasks; ++n) f.push_back(pool.enqueue([&l] (int k) { ++l.ran[k]; return value_of(k); }, n));
        for (int n = 0; n < tasks; ++n) { REQUIRE(f[n].get() == value_of(n)); REQUIRE(l.ran[n] == 1); }
    }
    for (int n = 0; n < tasks; ++n) REQUIRE(l.ran[n] == 1);
}

// Destroy the pool with tasks possibly pending: they must all have run.
static void destroy_with_pending(int workers, int tasks)
{
    Ledger l;
    std::vector<std::future<int>> f;
    {
        thread_pool_t pool(workers);
        for (int n = 0; n < tasks; ++n) f.push_back(pool.enqueue([&l] (int k) { ++l.ran[k]; return value_of(k); }, n));
    }
    for (int n = 0; n < tasks; ++n)
    {
        REQUIRE(l.ran[n] == 1);
        REQUIRE(f[n].wait_for(std::chrono::seconds(0)) == std::future_status::ready);
        REQUIRE(f[n].get() == value_of(n));
    }
}

// Stop with tasks pending, explicitly and more than once.
static void stop_with_pending(int workers, int tasks)
{
    Ledger l;
    thread_pool_t pool(workers);
    std::vector<std::future<int>> f;
    for (int n = 0; n < tasks; ++n) f.push_back(pool.enqueue([&l] (int k) { ++l.ran[k]; return value_of(k); }, n));
    pool.stop_all();
    for (int n = 0; n < tasks; ++n) { REQUIRE(l.ran[n] == 1); REQUIRE(f[n].get() == value_of(n)); }
    pool.stop_all();
}

// Restart (possibly with another size, possibly with work pending) and go on.
static void restart_and_reuse(int w1, int w2, int t1, int t2, bool wait_first)
{
    Ledger l;
    thread_pool_t pool(w1);
    std::vector<std::future<int>> f;
    for (int n = 0; n < t1; ++n) f.push_back(pool.enqueue([&l] (int k) { ++l.ran[k]; return value_of(k); }, n));
    if (wait_first) for (auto& x : f) x.wait();
    pool.restart(w2);
    for (int n = 0; n < t1; ++n) REQUIRE(l.ran[n] == 1);
    for (int n = t1; n < t1 + t2; ++n) f.push_back(pool.enqueue([&l] (int k) { ++l.ran[k]; return value_of(k); }, n));
    for (int n = 0; n < t1 + t2; ++n) { REQUIRE(f[n].get() == value_of(n)); REQUIRE(l.ran[n] == 1); }
}

static void stop_then_restart(int workers)
{
    Ledger l;
    thread_pool_t pool(workers);
    pool.stop_all();
    pool.restart(workers);
    auto f = pool.enqueue([&l] { ++l.ran[0]; return 7; });
    REQUIRE(f.get() == 7);
    REQUIRE(l.ran[0] == 1);
}

// Two callers share one pool.
static void two_producers(int workers, int each)
{
    Ledger l;
    {
        thread_pool_t pool(workers);
        auto produce = [&] (int base)
        {
            std::vector<std::future<int>> f;
            for (int n = base; n < base + each; ++n) f.push_back(pool.enqueue([&l] (int k) { ++l.ran[k]; return value_of(k); }, n));
            for (int n = 0; n < each; ++n) REQUIRE(f[n].get() == value_of(base + n));
        };
        std::thread other(produce, 8);
        produce(0);
        other.join();
    }
    for (int n = 0; n < each; ++n) { REQUIRE(l.ran[n] == 1); REQUIRE(l.ran[8 + n] == 1); }
}

// As many tasks as workers, each waiting for all the others to have started:
// no task may be left queued while a worker is idle.
static void rendezvous(int workers)
{
    std::mutex m; std::condition_variable c; int arrived = 0;
    thread_pool_t pool(workers);
    std::vector<std::future<int>> f;
    for (int n = 0; n < workers; ++n) f.push_back(pool.enqueue([&] (int k)
    {
        std::unique_lock<std::mutex> lock(m);
        if (++arrived == workers) c.notify_all();
        c.wait(lock, [&] { return arrived == workers; });
        return value_of(k);
    }, n));
    for (int n = 0; n < workers; ++n) REQUIRE(f[n].get() == value_of(n));
}

// A second round after the workers have gone idle.
static void rendezvous_twice(int workers)
{
    std::mutex m; std::condition_variable c; int arrived = 0;
    thread_pool_t pool(workers);
    for (int round = 1; round <= 2; ++round)
    {
        std::vector<std::future<int>> f;
        for (int n = 0; n < workers; ++n) f.push_back(pool.enqueue([&] (int k)
        {
            std::unique_lock<std::mutex> lock(m);
            ++arrived;
            c.notify_all();
            c.wait(lock, [&] { return arrived >= workers * round; });
            return value_of(k);
        }, n));
        for (int n = 0; n < workers; ++n) REQUIRE(f[n].get() == value_of(n));
    }
}

// A task submits another task to the same pool.
static void nested_submit(int workers)
{
    Ledger l;
    std::future<int> inner;
    {
        thread_pool_t pool(workers);
        auto outer = pool.enqueue([&] { ++l.ran[0]; inner = pool.enqueue([&l] { ++l.ran[1]; return 11; }); return 10; });
        REQUIRE(outer.get() == 10);
        REQUIRE(inner.get() == 11);
    }
    REQUIRE(l.ran[0] == 1); REQUIRE(l.ran[1] == 1);
}

// One worker: tasks start in submission order.
static void submission_order(int tasks)
{
    std::vector<int> order;
    {
        thread_pool_t pool(1);
        for (int n = 0; n < tasks; ++n) pool.enqueue([&order] (int k) { order.push_back(k); return k; }, n);
    }
    REQUIRE((int) order.size() == tasks);
    for (int n = 0; n < tasks; ++n) REQUIRE(order[n] == n);
}

// A task that throws: its caller gets the exception, everything else goes on.
static void throwing_task(int workers, int bad, int tasks)
{
    Ledger l;
    {
        thread_pool_t pool(workers);
        std::vector<std::future<int>> f;
        for (int n = 0; n < tasks; ++n) f.push_back(pool.enqueue([&l, bad] (int k) -> int
        {
            ++l.ran[k];
            if (k == bad) throw std::runtime_error("task failed");
            return value_of(k);
        }, n));
        for (int n = 0; n < tasks; ++n)
        {
            if (n == bad)
            {
                bool caught = false;
                try { f[n].get(); } catch (const std::runtime_error& e) { caught = std::string(e.what()) == "task failed"; }
                REQUIRE(caught);
            }
            else REQUIRE(f[n].get() == value_of(n));
        }
    }
    for (int n = 0; n < tasks; ++n) REQUIRE(l.ran[n] == 1);
}

// Caller drops the future without looking.
static void dropped_futures(int workers, int tasks)
{
    Ledger l;
    {
        thread_pool_t pool(workers);
        for (int n = 0; n < tasks; ++n) pool.enqueue([&l] (int k) { ++l.ran[k]; return k; }, n);
    }
    for (int n = 0; n < tasks; ++n) REQUIRE(l.ran[n] == 1);
}

// Arguments and results with heap storage are handed over intact.
static void heap_arguments(int workers)
{
    thread_pool_t pool(workers);
    auto a = pool.enqueue([] (std::vector<int> v, std::string s) { v.push_back(5); return s + std::to_string(v.size()); }, std::vector<int>{1, 2, 3}, std::string("a long enough string to be on the heap "));
    auto b = pool.enqueue([] (std::shared_ptr<int> p) { return *p; }, std::make_shared<int>(42));
    REQUIRE(b.get() == 42);
    REQUIRE(a.get() == "a long enough string to be on the heap 4");
}

static void many_stops(int workers)
{
    for (int n = 0; n < 2; ++n) thread_pool_t pool(workers);
}

int main(int argc, char** argv)
{
    std::vector<mcrt::scenario_t> s = {
        {"create-destroy-1",        [] { many_stops(1); }, 2, 4},
        {"create-destroy-2",        [] { many_stops(2); }, 2, 3},
        {"get-1w-1t",               [] { submit_and_get(1, 1); }, 2, 4},
        {"get-1w-2t",               [] { submit_and_get(1, 2); }, 2, 4},
        {"get-2w-1t",               [] { submit_and_get(2, 1); }, 2, 3},
        {"get-2w-2t",               [] { submit_and_get(2, 2); }, 2, 3},
        {"get-2w-3t",               [] { submit_and_get(2, 3); }, 2, 3},
        {"get-3w-2t",               [] { submit_and_get(3, 2); }, 1, 2},
        {"get-3w-4t",               [] { submit_and_get(3, 4); }, 1, 2},
        {"destroy-1w-2t",           [] { destroy_with_pending(1, 2); }, 2, 4},
        {"destroy-1w-3t",           [] { destroy_with_pending(1, 3); }, 2, 3},
        {"destroy-2w-1t",           [] { destroy_with_pending(2, 1); }, 2, 3},
        {"destroy-2w-3t",           [] { destroy_with_pending(2, 3); }, 2, 3},
        {"stop-1w-2t",              [] { stop_with_pending(1, 2); }, 2, 3},
        {"stop-2w-2t",              [] { stop_with_pending(2, 2); }, 2, 3},
        {"stop-2w-0t",              [] { stop_with_pending(2, 0); }, 2, 3},
        {"restart-1-2-pending",     [] { restart_and_reuse(1, 2, 2, 1, false); }, 2, 3},
        {"restart-2-1-pending",     [] { restart_and_reuse(2, 1, 2, 2, false); }, 1, 2},
        {"restart-2-2-waited",      [] { restart_and_reuse(2, 2, 1, 2, true); }, 1, 2},
        {"restart-1-1-idle",        [] { restart_and_reuse(1, 1, 0, 1, false); }, 2, 3},
        {"stop-then-restart-1",     [] { stop_then_restart(1); }, 2, 3},
        {"stop-then-restart-2",     [] { stop_then_restart(2); }, 2, 3},
        {"producers-1w",            [] { two_producers(1, 1); }, 2, 3},
        {"producers-2w",            [] { two_producers(2, 1); }, 2, 3},
        {"producers-2w-2t",         [] { two_producers(2, 2); }, 1, 2},
        {"rendezvous-2",            [] { rendezvous(2); }, 2, 3},
        {"rendezvous-3",            [] { rendezvous(3); }, 1, 2},
        {"rendezvous-twice-2",      [] { rendezvous_twice(2); }, 1, 2},
        {"nested-1w",               [] { nested_submit(1); }, 2, 3},
        {"nested-2w",               [] { nested_submit(2); }, 2, 3},
        {"order-3",                 [] { submission_order(3); }, 2, 4},
        {"order-4",                 [] { submission_order(4); }, 2, 3},
        {"throw-1w-first",          [] { throwing_task(1, 0, 2); }, 2, 3},
        {"throw-2w-first",          [] { throwing_task(2, 0, 2); }, 2, 3},
        {"throw-2w-last",           [] { throwing_task(2, 2, 3); }, 1, 2},
        {"dropped-2w-2t",           [] { dropped_futures(2, 2); }, 2, 3},
        {"heap-1w",                 [] { heap_arguments(1); }, 2, 3},
        {"heap-2w",                 [] { heap_arguments(2); }, 1, 2},
    };
    return mcrt::main(argc, argv, s);
}
