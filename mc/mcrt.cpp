// Controlled-scheduler runtime (stateless model checking of real threads).
//
// Harness code is compiled with -fsanitize=thread but linked with THIS runtime
// instead of libtsan: every plain access, atomic access, lock, condition wait,
// futex wait (std::future), thread start and join of the code under test comes
// here. Exactly one thread runs at a time; at every synchronisation operation
// the scheduler may hand over to any thread whose pending operation is enabled.
// Executions are enumerated by depth-first search over those choices with a
// bound on deviations (preemptions, spurious wakeups, early timeouts); choices
// made when the running thread blocks or ends, and the choice of which waiter
// notify_one wakes, are free. Each execution also runs a vector-clock
// happens-before race detector over the plain accesses.
#include "mcrt.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <chrono>

namespace {

// ---------------------------------------------------------------- real calls
template<typename F> F real(const char* name)
{
    auto p = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    if (!p) { fprintf(stderr, "mcrt: no %s\n", name); _exit(99); }
    return p;
}
#define REAL(ret, name, ...) \
    typedef ret (*name##_fn)(__VA_ARGS__); \
    static name##_fn real_##name() { static name##_fn p = real<name##_fn>(#name); return p; }

REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void*(*)(void*), void*)
REAL(int, pthread_join, pthread_t, void**)
REAL(int, pthread_detach, pthread_t)
REAL(int, pthread_mutex_lock, pthread_mutex_t*)
REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
REAL(int, pthread_once, pthread_once_t*, void(*)())

struct Sem   // private futex semaphore; never interposed
{
    std::atomic<int> v{0};
    void post() { v.store(1, std::memory_order_release); syscall(SYS_futex, &v, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
    void wait()
    {
        for (int spin = 0; spin < 200; ++spin) if (v.exchange(0, std::memory_order_acquire)) return;
        while (!v.exchange(0, std::memory_order_acquire)) syscall(SYS_futex, &v, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
};

// ---------------------------------------------------------------- model state
constexpr int MAXT = 16;
struct VC
{
    uint32_t c[MAXT] = {};
    void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum Op { OP_RUN, OP_LOCK, OP_COND, OP_JOIN, OP_FUTEX, OP_ONCE, OP_YIELD, OP_RWR, OP_RWW, OP_DONE };

struct Thread
{
    int id = 0;
    uint64_t hash = 0;             // hash of this thread's causal past
    Sem sem;
    Op op = OP_RUN;
    const void* obj = nullptr;     // lock / cond / futex / once address
    const void* obj2 = nullptr;    // mutex of a condition wait
    unsigned val = 0;              // futex expected value
    int join_target = -1;
    bool woken = false, timed = false, timedout = false, spurious = false;
    bool finished = false, joined = false, detached = false;
    bool yielded = false;
    VC vc;
    pthread_t handle{};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
};

struct Mutex { int owner = -1; int count = 0; VC vc; bool recursive = false; };
struct RW { int writer = -1; std::set<int> readers; VC vc; };
struct Cond { std::vector<int> waiters; VC vc; };
struct Once { int state = 0; VC vc; };

struct Access { uint8_t tid, mask; uint32_t clk; void* pc; };
struct Cell { std::vector<Access> w, r; };

struct Choice { uint16_t n, pick; uint8_t cost[MAXT * 2]; uint64_t sig; };
struct ObjHash { uint64_t w = 0, r = 0; };

constexpr int MAXCHOICE = 60000;
struct Shared    // visible to the supervising process
{
    volatile int status;           // 0 running, 1 failed
    volatile int nchoices;
    volatile int preflen;
    volatile uint64_t executions, points, pruned_horizon, switches;
    uint16_t picks[MAXCHOICE];
    uint16_t prefix[MAXCHOICE];
    char what[8192];
};
Shared* sh = nullptr;

bool active = false;               // an execution is running
thread_local Thread* self = nullptr;
thread_local bool in_rt = false;   // re-entrancy guard
Thread* threads[MAXT];
int nthreads = 0;
Thread* current = nullptr;
std::unordered_map<const void*, Mutex>* mutexes;
std::unordered_map<const void*, RW>* rws;
std::unordered_map<const void*, Cond>* conds;
std::unordered_map<const void*, Once>* onces;
std::unordered_map<const void*, VC>* atomics;
std::unordered_map<uintptr_t, Cell>* shadow;
std::unordered_map<const void*, ObjHash>* objhash;
std::vector<Choice>* trace;
std::vector<uint16_t>* prefix;
std::string* observations;
long point_count = 0;
long consecutive = 0;
long horizon = 400000;
Sem done_sem;

struct Guard { bool old; Guard() : old(in_rt) { in_rt = true; } ~Guard() { in_rt = old; } };
inline bool managed() { return active && self && !in_rt; }

[[noreturn]] void failure(const std::string& what)
{
    in_rt = true;
    strncpy(sh->what, what.c_str(), sizeof(sh->what) - 1);
    sh->status = 1;
    syscall(SYS_exit_group, 41);
    __builtin_unreachable();
}

std::string pcname(void* pc)
{
    Dl_info i;
    char b[256];
    if (dladdr(pc, &i) && i.dli_fname) snprintf(b, sizeof b, "%s+0x%lx", i.dli_fname, (unsigned long) ((char*) pc - (char*) i.dli_fbase));
    else snprintf(b, sizeof b, "%p", pc);
    return b;
}

// ---------------------------------------------------------------- state hash
// Two prefixes with the same partial order of synchronisation events lead to
// the same state (plain accesses are ordered by it, or a race is reported), so
// a state is identified by the causal histories of its threads.
inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t x = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C159E3779B9ull;
    x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; x *= 0x94D049BB133111EBull; x ^= x >> 32;
    return x;
}
void ev_write(const volatile void* o, uint64_t kind)
{
    auto& h = (*objhash)[(const void*) o];
    self->hash = mix(mix(self->hash, kind), mix(h.w, h.r));
    h.w = self->hash; h.r = 0;
}
void ev_read(const volatile void* o, uint64_t kind)
{
    auto& h = (*objhash)[(const void*) o];
    self->hash = mix(mix(self->hash, kind), h.w);
    h.r += self->hash;
}
uint64_t signature(int tag)
{
    uint64_t x = mix(tag, current->id);
    for (int i = 0; i < nthreads; ++i)
    {
        auto t = threads[i];
        x = mix(x, t->hash);
        x = mix(x, t->op * 32 + t->finished * 16 + t->woken * 8 + t->timedout * 4 + t->timed * 2);
    }
    return x;
}

// ---------------------------------------------------------------- scheduling
bool op_enabled(Thread* t)
{
    switch (t->op)
    {
        case OP_RUN: case OP_YIELD: return true;
        case OP_LOCK: { auto& m = (*mutexes)[t->obj]; return m.owner < 0 || (m.recursive && m.owner == t->id); }
        case OP_RWR: return (*rws)[t->obj].writer < 0;
        case OP_RWW: { auto& r = (*rws)[t->obj]; return r.writer < 0 && r.readers.empty(); }
        case OP_COND: return t->woken && (*mutexes)[t->obj2].owner < 0;
        case OP_JOIN: return threads[t->join_target]->finished;
        case OP_FUTEX: return t->woken;
        case OP_ONCE: return (*onces)[t->obj].state != 1;
        case OP_DONE: return false;
    }
    return false;
}

// returns index of the alternative picked among n (costs given)
int choose(int n, const uint8_t* cost, int tag)
{
    if (n == 1) return 0;
    size_t k = trace->size();
    int pick = 0;
    if (k < prefix->size())
    {
        pick = (*prefix)[k];
        if (pick >= n) failure("INTERNAL replay divergence");
    }
    Choice c;
    c.n = n; c.pick = pick; c.sig = signature(tag);
    memcpy(c.cost, cost, n);
    if (k >= MAXCHOICE - 1) failure("execution does not terminate (more than " + std::to_string(MAXCHOICE) + " choice points)");
    sh->picks[k] = pick;
    sh->nchoices = k + 1;
    trace->push_back(c);
    return pick;
}

std::string describe_threads()
{
    std::string s;
    static const char* names[] = {"running", "waiting for lock", "waiting on condition", "joining thread", "waiting for future", "once", "yield", "rdlock", "wrlock", "finished"};
    for (int i = 0; i < nthreads; ++i)
    {
        s += " T" + std::to_string(i) + ":" + (threads[i]->finished ? "finished" : names[threads[i]->op]);
        if (threads[i]->op == OP_JOIN && !threads[i]->finished) s += " " + std::to_string(threads[i]->join_target);
    }
    return s;
}

// called with the running thread's pending operation recorded; returns when
// that operation may proceed
void schedule()
{
    Thread* me = current;
    ++point_count;
    sh->points = sh->points + 1;
    if (point_count > horizon) failure("execution does not terminate (horizon of " + std::to_string(horizon) + " scheduling points):" + describe_threads());

    Thread* cand[MAXT * 2]; uint8_t cost[MAXT * 2]; bool odd[MAXT * 2];
    int n = 0;
    bool mine = op_enabled(me);
    bool prefer_other = me->op == OP_YIELD || ++consecutive > 3000;
    if (mine && !prefer_other) { cand[n] = me; cost[n] = 0; odd[n] = false; ++n; }
    for (int k = 1; k <= nthreads; ++k)
    {
        Thread* t = threads[(me->id + k) % nthreads];
        if (t == me || !op_enabled(t)) continue;
        cand[n] = t; cost[n] = (mine && !prefer_other) ? 1 : 0; odd[n] = false; ++n;
    }
    if (mine && prefer_other) { cand[n] = me; cost[n] = n ? 1 : 0; odd[n] = false; ++n; }
    int nplain = n;
    // spurious wakeups and early timeouts: deviations; a timeout is also what
    // happens when nothing else can
    for (int k = 0; k < nthreads; ++k)
    {
        Thread* t = threads[k];
        if (t->finished || t->woken) continue;
        bool c = t->op == OP_COND && (*mutexes)[t->obj2].owner < 0;
        bool f = t->op == OP_FUTEX && t->timed;
        if (!c && !f) continue;
        if (nplain == 0 && !t->timed) continue;
        cand[n] = t; cost[n] = nplain ? 1 : 0; odd[n] = true; ++n;
    }
    if (n == 0)
    {
        bool all = true;
        for (int i = 0; i < nthreads; ++i) if (!threads[i]->finished) all = false;
        if (all) { done_sem.post(); return; }
        failure("deadlock:" + describe_threads());
    }
    int k = choose(n, cost, 1);
    Thread* t = cand[k];
    if (odd[k])
    {
        t->woken = true;
        t->spurious = true;
        t->hash = mix(t->hash, 77);
        if (t->timed) t->timedout = true;
        if (t->op == OP_COND) { auto& w = (*conds)[t->obj].waiters; for (size_t i = 0; i < w.size(); ++i) if (w[i] == t->id) { w.erase(w.begin() + i); break; } }
    }
    if (t != me)
    {
        sh->switches = sh->switches + 1;
        consecutive = 0;
        current = t;
        t->sem.post();
        if (me->op != OP_DONE) me->sem.wait();
    }
    else if (prefer_other) consecutive = 0;
}

inline void tick(Thread* t) { ++t->vc.c[t->id]; }

void point(Op op = OP_RUN, const void* obj = nullptr)
{
    self->op = op;
    self->obj = obj;
    schedule();
}
void resume() { self->op = OP_RUN; self->obj = nullptr; }

void* thread_main(void* p)
{
    auto t = static_cast<Thread*>(p);
    in_rt = true;
    self = t;
    t->sem.wait();
    resume();
    in_rt = false;
    void* r = t->fn(t->arg);
    in_rt = true;
    t->ret = r;
    tick(t);
    t->hash = mix(t->hash, 5);
    t->finished = true;
    t->op = OP_DONE;
    schedule();
    return r;
}

// ---------------------------------------------------------------- race check
void clear_shadow(void* p, size_t n)
{
    if (!shadow || !n) return;
    uintptr_t a = (uintptr_t) p >> 3, b = ((uintptr_t) p + n - 1) >> 3;
    if (b - a > 4096 && b - a > shadow->size())
    {
        for (auto it = shadow->begin(); it != shadow->end();) if (it->first >= a && it->first <= b) it = shadow->erase(it); else ++it;
        return;
    }
    for (; a <= b; ++a) shadow->erase(a);
}

void race(uintptr_t addr, const Access& old, bool oldw, bool neww, void* pc)
{
    failure(std::string("data race: ") + (neww ? "write" : "read") + " by T" + std::to_string(self->id) + " at " + pcname(pc)
        + " conflicts with " + (oldw ? "write" : "read") + " by T" + std::to_string(old.tid) + " at " + pcname(old.pc));
}

void access1(uintptr_t g, uint8_t mask, bool write, void* pc)
{
    Cell& c = (*shadow)[g];
    auto& vc = self->vc;
    for (auto& a : c.w) if (a.tid != self->id && (a.mask & mask) && a.clk > vc.c[a.tid]) race(g << 3, a, true, write, pc);
    if (write)
    {
        for (auto& a : c.r) if (a.tid != self->id && (a.mask & mask) && a.clk > vc.c[a.tid]) race(g << 3, a, false, true, pc);
        c.r.clear();
        size_t k = 0;
        for (auto& a : c.w) if (a.mask & ~mask) c.w[k++] = a;
        c.w.resize(k);
        c.w.push_back({(uint8_t) self->id, mask, vc.c[self->id], pc});
    }
    else
    {
        for (auto& a : c.r) if (a.tid == self->id && a.mask == mask) { a.clk = vc.c[self->id]; a.pc = pc; return; }
        c.r.push_back({(uint8_t) self->id, mask, vc.c[self->id], pc});
    }
}

void access(void* p, size_t n, bool write, void* pc)
{
    if (!managed()) return;
    if (nthreads == 1) return;     // nothing to race with yet; thread creation orders everything before it
    Guard g;
    uintptr_t a = (uintptr_t) p;
    while (n)
    {
        size_t off = a & 7, len = 8 - off < n ? 8 - off : n;
        access1(a >> 3, (uint8_t) (((1u << len) - 1) << off), write, pc);
        a += len; n -= len;
    }
}

// reference-count updates inside the standard library commute: no scheduling
// point for them (still synchronise)
bool is_refcount(void* pc)
{
    static std::unordered_map<void*, bool>* cache = new std::unordered_map<void*, bool>();
    auto it = cache->find(pc);
    if (it != cache->end()) return it->second;
    Dl_info i;
    bool r = false;
    if (dladdr(pc, &i) && i.dli_sname)
        r = strstr(i.dli_sname, "__exchange_and_add") || strstr(i.dli_sname, "_M_add_ref") || strstr(i.dli_sname, "_Sp_counted_base")
            || strstr(i.dli_sname, "__atomic_add");
    (*cache)[pc] = r;
    return r;
}

void atomic_point(const volatile void*, void* pc)
{
    if (nthreads == 1 || is_refcount(pc)) return;
    point();
    resume();
}
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void hb_load(const volatile void* a, int mo) { ev_read(a, 30); if (acq(mo)) { auto it = atomics->find((const void*) a); if (it != atomics->end()) self->vc.join(it->second); } }
void hb_store(const volatile void* a, int mo)
{
    ev_write(a, 31);
    if (rel(mo)) { (*atomics)[(const void*) a] = self->vc; tick(self); }
    else atomics->erase((const void*) a);
}
void hb_rmw(const volatile void* a, int mo)
{
    ev_write(a, 32);
    auto& v = (*atomics)[(const void*) a];
    if (acq(mo)) self->vc.join(v);
    if (rel(mo)) { v.join(self->vc); tick(self); }
}

void lock_mutex(pthread_mutex_t* m)
{
    point(OP_LOCK, m);
    resume();
    auto& x = (*mutexes)[m];
    x.owner = self->id; ++x.count;
    self->vc.join(x.vc);
    ev_write(m, 10);
}
void unlock_mutex(pthread_mutex_t* m)
{
    auto& x = (*mutexes)[m];
    if (x.owner != self->id) failure("unlock of a mutex this thread does not hold");
    ev_write(m, 11);
    if (--x.count == 0) { x.owner = -1; x.vc = self->vc; tick(self); }
}
bool mutex_is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }

int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    point(); resume();
    auto& x = (*mutexes)[m];
    if (x.owner != self->id) failure("condition wait without holding the mutex");
    ev_write(m, 12);
    ev_write(c, 21);
    int saved = x.count; x.count = 0; x.owner = -1; x.vc = self->vc; tick(self);
    (*conds)[c].waiters.push_back(self->id);
    self->woken = false; self->timed = timed; self->timedout = false; self->spurious = false;
    self->op = OP_COND; self->obj = c; self->obj2 = m;
    schedule();
    auto& y = (*mutexes)[m];
    y.owner = self->id; y.count = saved;
    self->vc.join(y.vc);
    ev_write(m, 13);
    self->woken = false; self->timed = false;
    resume();
    return self->timedout ? ETIMEDOUT : 0;
}
void cond_signal(pthread_cond_t* c, bool all)
{
    point(); resume();
    auto& w = (*conds)[c].waiters;
    ev_write(c, 20);
    if (all) { for (int id : w) { threads[id]->woken = true; threads[id]->hash = mix(threads[id]->hash, self->hash); } w.clear(); return; }
    if (w.empty()) return;
    uint8_t cost[MAXT * 2] = {};
    int k = choose(w.size(), cost, 2);
    self->hash = mix(self->hash, 100 + k);
    threads[w[k]]->hash = mix(threads[w[k]]->hash, self->hash);
    threads[w[k]]->woken = true;
    w.erase(w.begin() + k);
}

} // namespace

// ---------------------------------------------------------------- interposed
extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    if (!managed()) return real_pthread_create()(th, attr, fn, arg);
    Guard g;
    if (nthreads >= MAXT) failure("too many threads for the model (more than " + std::to_string(MAXT) + ")");
    auto t = new Thread();
    t->id = nthreads;
    t->fn = fn; t->arg = arg;
    self->hash = mix(self->hash, 40);
    t->hash = mix(self->hash, 41);
    tick(self);
    t->vc = self->vc;
    tick(self); 
    t->vc.c[t->id] = 1;
    threads[nthreads++] = t;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 1 << 20);
    real_pthread_create()(&t->handle, &a, thread_main, t);
    pthread_attr_destroy(&a);
    *th = t->handle;
    return 0;
}

int pthread_join(pthread_t th, void** ret)
{
    if (!managed()) return real_pthread_join()(th, ret);
    Guard g;
    Thread* t = nullptr;
    for (int i = 0; i < nthreads; ++i) if (threads[i]->id && pthread_equal(threads[i]->handle, th) && !threads[i]->joined) t = threads[i];
    if (!t) return ESRCH;
    if (t == self) return EDEADLK;
    self->join_target = t->id;
    point(OP_JOIN, nullptr); resume();
    t->joined = true;
    self->hash = mix(mix(self->hash, 42), t->hash);
    self->vc.join(t->vc);
    if (ret) *ret = t->ret;
    return 0;    // the OS thread is reaped at the end of the execution
}

int pthread_detach(pthread_t th)
{
    if (!managed()) return real_pthread_detach()(th);
    return 0;
}

int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!managed()) return real_pthread_mutex_lock()(m);
    Guard g;
    if (mutex_is_recursive(m)) (*mutexes)[m].recursive = true;
    auto& x = (*mutexes)[m];
    if (!x.recursive && x.owner == self->id) failure("deadlock: thread T" + std::to_string(self->id) + " locks a mutex it already holds");
    lock_mutex(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!managed()) return real_pthread_mutex_trylock()(m);
    Guard g;
    point(); resume();
    auto& x = (*mutexes)[m];
    ev_write(m, 14 + (x.owner >= 0));
    if (x.owner >= 0 && !(mutex_is_recursive(m) && x.owner == self->id)) return EBUSY;
    x.owner = self->id; ++x.count;
    self->vc.join(x.vc);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!managed()) return real_pthread_mutex_unlock()(m);
    Guard g;
    unlock_mutex(m);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (managed()) { Guard g; auto it = mutexes->find(m); if (it != mutexes->end()) { if (it->second.owner >= 0) failure("destruction of a locked mutex"); mutexes->erase(it); } }
    return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!managed()) return 0;
    Guard g; point(OP_RWR, m); resume(); auto& r = (*rws)[m]; ev_write(m, 15); r.readers.insert(self->id); self->vc.join(r.vc); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!managed()) return 0;
    Guard g; point(OP_RWW, m); resume(); auto& r = (*rws)[m]; ev_write(m, 16); r.writer = self->id; self->vc.join(r.vc); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!managed()) return 0;
    Guard g; ev_write(m, 17); auto& r = (*rws)[m]; if (r.writer == self->id) r.writer = -1; else r.readers.erase(self->id);
    r.vc.join(self->vc); tick(self); return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!managed()) { fprintf(stderr, "mcrt: unmanaged cond wait\n"); _exit(98); }
    Guard g; return cond_wait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*)
{
    if (!managed()) { fprintf(stderr, "mcrt: unmanaged cond wait\n"); _exit(98); }
    Guard g; return cond_wait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*)
{
    if (!managed()) { fprintf(stderr, "mcrt: unmanaged cond wait\n"); _exit(98); }
    Guard g; return cond_wait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) { if (managed()) { Guard g; cond_signal(c, false); } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (managed()) { Guard g; cond_signal(c, true); } return 0; }
int pthread_cond_destroy(pthread_cond_t* c)
{
    if (managed()) { Guard g; auto it = conds->find(c); if (it != conds->end()) { if (!it->second.waiters.empty()) failure("destruction of a condition variable with waiters"); conds->erase(it); } }
    return 0;
}
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }

int pthread_once(pthread_once_t* o, void (*fn)())
{
    if (!managed()) return real_pthread_once()(o, fn);
    Once* x;
    {
        Guard g;
        point(OP_ONCE, o); resume();
        x = &(*onces)[o];
        ev_write(o, 50);
        self->vc.join(x->vc);
        if (*(volatile int*) o == 2) return 0;   // the flag itself decides: memory may be reused
        x->state = 1;
    }
    try { fn(); }
    catch (...) { Guard g; (*onces)[o].state = 0; throw; }
    {
        Guard g;
        auto& y = (*onces)[o];
        ev_write(o, 51);
        y.state = 2; *(volatile int*) o = 2;
        y.vc = self->vc; tick(self);
    }
    return 0;
}

int sched_yield() { if (managed()) { Guard g; self->hash = mix(self->hash, 70); point(OP_YIELD); resume(); } return 0; }
int nanosleep(const struct timespec*, struct timespec*) { if (managed()) { Guard g; self->hash = mix(self->hash, 71); point(OP_YIELD); resume(); } return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { if (managed()) { Guard g; self->hash = mix(self->hash, 71); point(OP_YIELD); resume(); } return 0; }
int usleep(useconds_t) { if (managed()) { Guard g; self->hash = mix(self->hash, 71); point(OP_YIELD); resume(); } return 0; }

int mcrt_guard_acquire(int64_t* gobj) asm("__cxa_guard_acquire");
int mcrt_guard_acquire(int64_t* gobj)
{
    char* b = reinterpret_cast<char*>(gobj);
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { if (managed()) { Guard g; self->vc.join((*onces)[gobj].vc); } return 0; }
    if (!managed()) { b[1] = 1; return 1; }
    Guard g;
    point(OP_ONCE, gobj); resume();
    auto& x = (*onces)[gobj];
    ev_write(gobj, 52);
    self->vc.join(x.vc);
    if (b[0]) return 0;
    x.state = 1;
    return 1;
}
void mcrt_guard_release(int64_t* gobj) asm("__cxa_guard_release");
void mcrt_guard_release(int64_t* gobj)
{
    char* b = reinterpret_cast<char*>(gobj);
    if (managed()) { Guard g; auto& x = (*onces)[gobj]; ev_write(gobj, 53); x.state = 2; x.vc = self->vc; tick(self); }
    __atomic_store_n(b, 1, __ATOMIC_RELEASE);
}
void mcrt_guard_abort(int64_t* gobj) asm("__cxa_guard_abort");
void mcrt_guard_abort(int64_t* gobj) { if (managed()) { Guard g; (*onces)[gobj].state = 0; } }

// ---------------------------------------------------------------- tsan hooks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, sizeof(void*), true, __builtin_return_address(0)); }
void __tsan_vptr_read(void** p) { access(p, sizeof(void*), false, __builtin_return_address(0)); }
#define RW1(n) \
void __tsan_read##n(void* p) { access(p, n, false, __builtin_return_address(0)); } \
void __tsan_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); } \
void __tsan_unaligned_read##n(void* p) { access(p, n, false, __builtin_return_address(0)); } \
void __tsan_unaligned_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); } \
void __tsan_volatile_read##n(void* p) { access(p, n, false, __builtin_return_address(0)); } \
void __tsan_volatile_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); } \
void __tsan_read_write##n(void* p) { access(p, n, true, __builtin_return_address(0)); }
RW1(1) RW1(2) RW1(4) RW1(8) RW1(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, __builtin_return_address(0)); }

#define PRE if (managed()) { Guard g; atomic_point(a, __builtin_return_address(0));
#define ATOMICS(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* a, int mo) { PRE hb_load(a, mo); } return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { PRE hb_store(a, mo); } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { PRE hb_rmw(a, mo); } return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { PRE hb_rmw(a, mo); } return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { PRE hb_rmw(a, mo); } return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { PRE hb_rmw(a, mo); } return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { PRE hb_rmw(a, mo); } return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { PRE hb_rmw(a, mo); } return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { PRE hb_rmw(a, mo); } return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) \
{ bool in = managed(); if (in) { Guard g; atomic_point(a, __builtin_return_address(0)); } \
  int ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  if (in) { Guard g; if (ok) hb_rmw(a, mo); else hb_load(a, fmo); } return ok; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) \
{ bool in = managed(); if (in) { Guard g; atomic_point(a, __builtin_return_address(0)); } \
  int ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  if (in) { Guard g; if (ok) hb_rmw(a, mo); else hb_load(a, fmo); } return ok; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) \
{ bool in = managed(); if (in) { Guard g; atomic_point(a, __builtin_return_address(0)); } \
  T x = e; int ok = __atomic_compare_exchange_n(a, &x, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  if (in) { Guard g; if (ok) hb_rmw(a, mo); else hb_load(a, fmo); } return x; }
ATOMICS(8, unsigned char) ATOMICS(16, unsigned short) ATOMICS(32, unsigned int) ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int) { if (managed()) { Guard g; (*atomics)[nullptr].join(self->vc); self->vc.join((*atomics)[nullptr]); tick(self); } }
void __tsan_atomic_signal_fence(int) {}

} // extern "C"

// std::future's waiting
#include <future>
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds, chrono::nanoseconds)
{
    if (!managed()) { fprintf(stderr, "mcrt: unmanaged futex wait\n"); _exit(97); }
    Guard g;
    point(); resume();
    ev_read(addr, 60);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
    self->woken = false; self->timed = has_timeout; self->timedout = false;
    self->op = OP_FUTEX; self->obj = addr;
    schedule();
    bool to = self->timedout;
    self->woken = self->timed = false;
    resume();
    return !to;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds n)
{
    return _M_futex_wait_until(addr, val, has_timeout, s, n);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr)
{
    if (!managed()) return;
    Guard g;
    point(); resume();
    ev_write(addr, 61);
    for (int i = 0; i < nthreads; ++i)
        if (threads[i]->op == OP_FUTEX && threads[i]->obj == addr && !threads[i]->finished) { threads[i]->woken = true; threads[i]->hash = mix(threads[i]->hash, self->hash); }
}
}

// heap: fresh memory has no access history; freed memory is overwritten, so
// that a use after free shows
#include <malloc.h>
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);
static void forget_objects(void* p, size_t n)
{
    auto lo = (const char*) p, hi = lo + n;
    auto drop = [&] (auto& m) { for (auto it = m.begin(); it != m.end();) { auto a = (const char*) it->first; if (a >= lo && a < hi) it = m.erase(it); else ++it; } };
    drop(*onces);
    if (atomics->size() > n) { for (auto a = lo; a < hi; ++a) atomics->erase(a); } else drop(*atomics);
}
void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    if (p && managed() && nthreads > 1) { Guard g; clear_shadow(p, n); forget_objects(p, n); }
    return p;
}
void* calloc(size_t n, size_t m)
{
    void* p = __libc_calloc(n, m);
    if (p && managed() && nthreads > 1) { Guard g; clear_shadow(p, n * m); forget_objects(p, n * m); }
    return p;
}
void* realloc(void* q, size_t n)
{
    void* p = __libc_realloc(q, n);
    if (p && managed() && nthreads > 1) { Guard g; clear_shadow(p, n); forget_objects(p, n); }
    return p;
}
void free(void* p)
{
    if (p && managed()) memset(p, 0xdd, malloc_usable_size(p));
    __libc_free(p);
}
}

// ---------------------------------------------------------------- explorer
namespace {

void run_once(const std::function<void()>& body)
{
    in_rt = true;
    delete mutexes; delete rws; delete conds; delete onces; delete atomics; delete shadow; delete objhash;
    objhash = new std::unordered_map<const void*, ObjHash>();
    mutexes = new std::unordered_map<const void*, Mutex>();
    rws = new std::unordered_map<const void*, RW>();
    conds = new std::unordered_map<const void*, Cond>();
    onces = new std::unordered_map<const void*, Once>();
    atomics = new std::unordered_map<const void*, VC>();
    shadow = new std::unordered_map<uintptr_t, Cell>();
    trace->clear();
    observations->clear();
    point_count = consecutive = 0;
    nthreads = 0;
    sh->nchoices = 0;
    sh->preflen = prefix->size();
    memcpy(sh->prefix, prefix->data(), prefix->size() * sizeof(uint16_t));

    auto t0 = new Thread();
    t0->id = 0;
    struct Arg { const std::function<void()>* body; } arg{&body};
    t0->fn = [] (void* p) -> void* { (*static_cast<Arg*>(p)->body)(); return nullptr; };
    t0->arg = &arg;
    tick(t0);
    threads[nthreads++] = t0;
    current = t0;
    active = true;
    real_pthread_create()(&t0->handle, nullptr, thread_main, t0);
    t0->sem.post();
    done_sem.wait();
    active = false;
    for (int i = 0; i < nthreads; ++i) real_pthread_join()(threads[i]->handle, nullptr);
    for (int i = 0; i < nthreads; ++i)
    {
        if (i && !threads[i]->joined && false) {}
        delete threads[i];
    }
    nthreads = 0;
    sh->executions = sh->executions + 1;
    in_rt = false;
}

struct Result { uint64_t executions = 0, points = 0, switches = 0; std::set<std::string> outcomes; bool capped = false; };

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// Depth-first enumeration in this process (child); failures end the process.
void explore(const std::function<void()>& body, int bound, int shard, int nshards, double deadline, uint64_t maxexec,
             std::set<std::string>& outcomes, bool& capped, uint64_t& states, uint64_t& transitions, uint64_t& merged)
{
    struct Item { std::vector<uint16_t> pre; int cost; };
    std::vector<Item> stack;
    stack.push_back({{}, 0});
    bool root = true;
    uint64_t n = 0;
    std::unordered_map<uint64_t, int> visited;
    while (!stack.empty())
    {
        Item it = std::move(stack.back());
        stack.pop_back();
        *prefix = it.pre;
        run_once(body);
        if (trace->size() < it.pre.size()) failure("INTERNAL replay divergence (execution ended early)");
        outcomes.insert(*observations);
        ++n;
        // push the alternatives, so that the latest deviation point is tried last
        int cost = 0;
        std::vector<int> before(trace->size() + 1, 0);
        for (size_t i = 0; i < trace->size(); ++i) { before[i] = cost; cost += (*trace)[i].cost[(*trace)[i].pick]; }
        std::vector<uint16_t> picks(trace->size());
        for (size_t i = 0; i < trace->size(); ++i) picks[i] = (*trace)[i].pick;
        int serial = 0;
        for (size_t i = it.pre.size(); i < trace->size(); ++i)
        {
            auto& c = (*trace)[i];
            // a state already expanded with at least this much budget left
            auto [v, fresh] = visited.try_emplace(c.sig, -1);
            if (v->second >= bound - before[i]) { ++merged; break; }
            if (fresh) ++states;
            v->second = bound - before[i];
            transitions += c.n;
            for (int alt = 1; alt < c.n; ++alt)
            {
                ++serial;
                if (root && serial % nshards != shard) continue;
                int k = before[i] + c.cost[alt];
                if (k > bound) continue;
                Item j;
                j.pre.assign(picks.begin(), picks.begin() + i);
                j.pre.push_back(alt);
                j.cost = k;
                stack.push_back(std::move(j));
            }
        }
        root = false;
        if ((deadline > 0 && now() > deadline) || (maxexec && n >= maxexec)) { capped = !stack.empty(); return; }
    }
}

[[noreturn]] void on_signal(int s)
{
    if (sh) { snprintf(sh->what, sizeof sh->what, "crash: signal %d (%s)", s, strsignal(s)); sh->status = 1; }
    syscall(SYS_exit_group, 41);
    __builtin_unreachable();
}
[[noreturn]] void on_terminate()
{
    std::string w = "std::terminate called";
    in_rt = true;
    if (auto e = std::current_exception())
    {
        try { std::rethrow_exception(e); }
        catch (const std::exception& x) { w += std::string(": ") + x.what(); }
        catch (...) {}
    }
    failure(w);
}
} // namespace

void mcrt::fail(const std::string& what) { failure(what); }
void mcrt::observe(const std::string& what) { Guard g; *observations += what; *observations += ';'; }

// usage: prog --scenario NAME --bound B --shard i/n --seconds S [--replay 0,1,0,2] [--list]
int mcrt::main(int argc, char** argv, const std::vector<scenario_t>& scenarios)
{
    std::string name, replay; int bound = -1, shard = 0, nshards = 1; double seconds = 0; bool list = false, doreplay = false; uint64_t maxexec = 0;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--scenario") name = argv[++i];
        else if (a == "--bound") bound = atoi(argv[++i]);
        else if (a == "--shard") sscanf(argv[++i], "%d/%d", &shard, &nshards);
        else if (a == "--seconds") seconds = atof(argv[++i]);
        else if (a == "--max") maxexec = strtoull(argv[++i], nullptr, 10);
        else if (a == "--replay") { replay = argv[++i]; doreplay = true; }
        else if (a == "--list") list = true;
    }
    if (list)
    {
        for (auto& s : scenarios) printf("%s %d %d\n", s.name.c_str(), s.bound_quick, s.bound_thorough);
        return 0;
    }
    const scenario_t* sc = nullptr;
    for (auto& s : scenarios) if (s.name == name) sc = &s;
    if (!sc) { fprintf(stderr, "no such scenario\n"); return 2; }
    sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int pipefd[2];
    if (pipe(pipefd)) return 2;
    pid_t pid = fork();
    if (pid == 0)
    {
        close(pipefd[0]);
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, on_signal);
        std::set_terminate(on_terminate);
        trace = new std::vector<Choice>(); prefix = new std::vector<uint16_t>(); observations = new std::string();
        std::set<std::string> outcomes; bool capped = false; uint64_t states = 0, transitions = 0, merged = 0;
        if (doreplay)
        {
            std::vector<uint16_t> p;
            const char* s = replay.c_str();
            while (*s) { p.push_back(strtol(s, (char**) &s, 10)); if (*s == ',') ++s; }
            *prefix = p;
            run_once(sc->body);
            outcomes.insert(*observations);
        }
        else explore(sc->body, bound, shard, nshards, seconds > 0 ? now() + seconds : 0, maxexec, outcomes, capped, states, transitions, merged);
        std::string o = std::string(capped ? "C" : "F") + "states " + std::to_string(states) + "\ntransitions " + std::to_string(transitions) + "\nmerged " + std::to_string(merged) + "\n";
        for (auto& x : outcomes) { o += "outcome " + x; o += '\n'; }
        const char* d = o.data(); size_t left = o.size();
        while (left) { ssize_t w = write(pipefd[1], d, left); if (w <= 0) break; d += w; left -= w; }
        close(pipefd[1]);
        _exit(0);
    }
    close(pipefd[1]);
    std::string out; char buf[65536]; ssize_t r;
    // hang protection: a single execution may not take more than 120 s of wall clock
    uint64_t last = 0; double t = now();
    fd_set fds;
    bool hung = false;
    for (;;)
    {
        FD_ZERO(&fds); FD_SET(pipefd[0], &fds);
        timeval tv{1, 0};
        int k = select(pipefd[0] + 1, &fds, nullptr, nullptr, &tv);
        if (k > 0) { r = read(pipefd[0], buf, sizeof buf); if (r <= 0) break; out.append(buf, r); continue; }
        if (sh->points != last || out.size()) { last = sh->points; t = now(); }
        else if (now() - t > 120) { kill(pid, SIGKILL); hung = true; break; }
    }
    int st = 0;
    waitpid(pid, &st, 0);
    bool failed = sh->status == 1 || hung || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    std::string what = hung ? "one step of the execution does not end within 120 s" : sh->what;
    if (failed && what.empty()) what = "execution ended abnormally, status " + std::to_string(st);
    printf("executions %llu\npoints %llu\nswitches %llu\n", (unsigned long long) sh->executions, (unsigned long long) sh->points, (unsigned long long) sh->switches);
    if (!failed) printf("complete %d\n", out.empty() ? 0 : out[0] == 'F');
    if (!failed && out.size() > 1)
    {
        size_t n = 0, pos = 1;
        while (pos < out.size()) { auto e = out.find('\n', pos); std::string x = out.substr(pos, e - pos); printf("%s\n", x.c_str()); ++n; pos = e + 1; }
    }
    if (failed)
    {
        printf("FAIL %s\n", what.c_str());
        printf("SCHEDULE ");
        // a schedule that ended early still replays: later choices default to 0
        int m = sh->nchoices;
        for (int i = 0; i < m; ++i) printf("%s%d", i ? "," : "", sh->picks[i]);
        printf("\n");
        return 1;
    }
    return 0;
}
