#include "mpi_model.hpp"
#include <condition_variable>
#include <list>
#include <memory>
#include <mpi.h>
#include <mutex>
#include <sanitizer/asan_interface.h>
#include <thread>

namespace mpimodel
{
struct comm { int id, parent; };
struct request;
struct message { int src, dst, tag, comm; std::string copy; const char* at; size_t size; bool eager, taken = false, gone = false, seen = false; request* by = nullptr; };
struct request { bool send; char* at; size_t size; int owner, comm, source, tag; message* m = nullptr; bool done = false, cancel = false, freed = false; };
struct slot { const char* kind; int root, arrived = 0; std::vector<std::vector<long>> args; bool done = false; };

struct world
{
    int n = 0;
    std::mutex mutex; std::condition_variable cv;
    int current = -1; bool stopping = false, over = false; long version = 0;
    std::vector<std::function<bool()>> ready; std::vector<bool> finished; std::vector<int> patience; std::vector<long> vain;
    std::vector<std::pair<int, int>> trail; size_t position = 0;
    std::string bad; bool deadlock = false, rendezvous = false, late = false; long calls = 0;
    std::list<message> messages; std::list<request> requests; std::list<comm> comms; std::set<const void*> live_requests; std::map<const void*, int> live_comms;
    std::map<std::pair<int, int>, slot> slots; std::map<std::pair<int, int>, int> sequence; int next_comm = 1; std::map<std::pair<int, int>, int> dups;
};
static world* W = nullptr;
static thread_local int ME = -1;

// an execution that went wrong is left where it is: its threads never run again
[[noreturn]] static void park(world* w)
{
    std::unique_lock<std::mutex> l(w->mutex);
    w->stopping = true; w->current = -2; w->cv.notify_all();
    while (true) w->cv.wait(l);
}
[[noreturn]] static void violate(const std::string& what) { if (W->bad.empty()) W->bad = what; park(W); }
static int choose(int k)
{
    if (k <= 1) return 0;
    if (W->position == W->trail.size()) W->trail.push_back({0, k});
    auto& t = W->trail[W->position++];
    if (t.second != k) { fprintf(stderr, "choices are not repeatable\n"); _exit(3); }
    return t.first;
}
// gives the turn to a rank that can go on
static void schedule()
{
    std::vector<int> can;
    for (int r = 0; r < W->n; ++r) if (! W->finished[r] && (! W->ready[r] || W->ready[r]())) can.push_back(r);
    if (can.empty())
    {
        bool all = true; for (bool f : W->finished) all = all && f;
        if (all) W->over = true; else { W->deadlock = true; W->stopping = true; }
        W->current = -2;
        return;
    }
    W->current = can[choose(int(can.size()))];
}
static void yield(std::function<bool()> until)
{
    auto w = W;
    std::unique_lock<std::mutex> l(w->mutex);
    w->ready[ME] = until; schedule(); w->cv.notify_all();
    w->cv.wait(l, [w] { return w->current == ME; });
    w->ready[ME] = nullptr;
}
static void enter() { if (! W || ME < 0) { fprintf(stderr, "MPI is used outside of a model run\n"); _exit(3); } ++W->calls; }
static int ctx(MPI_Comm c)
{
    if (c == MPI_COMM_WORLD) return 0;
    if (c == MPI_COMM_NULL) violate("a null communicator is used");
    auto i = W->live_comms.find(c); if (i == W->live_comms.end() || i->second != ME) violate("a communicator is used that does not exist (any more)");
    return ((comm*) c)->id;
}
static void readable(const void* p, size_t n, const char* what) { if (n && __asan_region_is_poisoned((void*) p, n)) violate(std::string("the buffer of ") + what + " does not exist any more while it is in use"); }
static std::string data_of(const message& m) { if (m.eager) return m.copy; readable(m.at, m.size, "a pending send"); return std::string(m.at, m.size); }
// a rank that looked in vain looks again when something has changed
static void look() { auto w = W; int me = ME; yield([w, me] { return w->version != w->vain[me]; }); w->vain[me] = -1; }
static bool fits(const message& m, int source, int tag, int comm) { return ! m.taken && ! m.gone && m.dst == ME && m.comm == comm && (source == MPI_ANY_SOURCE || source == m.src) && (tag == MPI_ANY_TAG || tag == m.tag); }
// the first fitting message of every source
static std::vector<message*> candidates(int source, int tag, int comm, bool seen=false) { std::vector<message*> r; std::set<int> from; for (auto& m : W->messages) if (fits(m, source, tag, comm) && from.insert(m.src).second && (! seen || m.seen)) r.push_back(&m); return r; }
static void note(MPI_Status* s, const message& m) { if (s != MPI_STATUS_IGNORE) { s->MPI_SOURCE = m.src; s->MPI_TAG = m.tag; s->MPI_ERROR = MPI_SUCCESS; s->_ucount = m.size; s->_cancelled = 0; } }
static void deliver(message& m, char* at, size_t size)
{
    if (m.size > size) violate(vf::cat("a message of ", m.size, " bytes is received into ", size, " bytes"));
    auto d = data_of(m); readable(at, d.size(), "a pending receive");
    if (! d.empty()) memcpy(at, d.data(), d.size());
}
static void take(message& m) { m.taken = true; ++W->version; if (m.by) m.by->done = true; }
static void finish(request& r) { if (r.done) return; if (! r.send && r.m) deliver(*r.m, r.at, r.size); r.done = true; }
// operations whose handle was given up are carried out some time later
static void settle(int rank) { for (auto& r : W->requests) if (r.freed && ! r.done && (rank < 0 || r.owner == rank) && ! r.send && r.m) finish(r); }
static MPI_Request handle(request& r) { W->live_requests.insert(&r); return (MPI_Request) &r; }
static request& of(MPI_Request q) { if (! W->live_requests.count(q)) violate("a request is used that does not exist (any more)"); return *(request*) q; }

template<typename Function> static int collective(MPI_Comm c, const char* kind, int root, std::vector<long> args, Function move)
{
    int id = ctx(c), k = W->sequence[{id, ME}]++; auto& s = W->slots[{id, k}];
    if (s.arrived == 0) { s.kind = kind; s.root = root; s.args.resize(W->n); }
    if (strcmp(s.kind, kind) || s.root != root) violate(vf::cat("rank ", ME, " takes part in ", kind, " with root ", root, " while others are in ", s.kind, " with root ", s.root));
    s.args[ME] = args; ++s.arrived;
    if (s.arrived == W->n) { move(s.args); s.done = true; }
    else yield([&s] { return s.done; });
    return MPI_SUCCESS;
}
static void copy(long to, long from, size_t n, const char* what) { if (! n) return; readable((void*) from, n, what); readable((void*) to, n, what); memmove((void*) to, (const void*) from, n); }

struct worker { std::mutex mutex; std::condition_variable cv; world* own = nullptr; const std::function<void(int)>* body = nullptr; bool busy = false; };
static std::vector<worker*> pool;
static void serve(worker& p)
{
    int r = ME;
    while (true)
    {
        world* own; const std::function<void(int)>* body;
        { std::unique_lock<std::mutex> l(p.mutex); p.cv.wait(l, [&] { return p.own; }); own = p.own; body = p.body; p.own = nullptr; }
        auto& w = *own;
        { std::unique_lock<std::mutex> l(w.mutex); w.cv.wait(l, [&] { return w.current == r; }); }
        try { (*body)(r); settle(r); }
        catch (const vf::failure_t& e) { violate(vf::cat("rank ", r, ": ", e.what)); }
        catch (const std::exception& e) { violate(vf::cat("rank ", r, ": unexpected exception: ", e.what())); }
        { std::lock_guard<std::mutex> l(w.mutex); w.finished[r] = true; ++w.version; schedule(); w.cv.notify_all(); }
        { std::lock_guard<std::mutex> l(p.mutex); p.busy = false; p.cv.notify_all(); }
    }
}

totals explore(int n, const std::function<void(int)>& body, const std::function<void(const outcome&)>& check, long limit)
{
    totals t; std::vector<std::pair<int, int>> trail;
    while (true)
    {
        auto own = new world; auto& w = *own; W = own; w.n = n; w.trail = trail; w.ready.resize(n); w.finished.assign(n, false); w.patience.assign(n, 1); w.vain.assign(n, -1);
        w.rendezvous = choose(2); w.late = choose(2);
        { std::lock_guard<std::mutex> l(w.mutex); schedule(); }
        if (int(pool.size()) < n) pool.resize(n);
        for (int r = 0; r < n; ++r)
        {
            if (! pool[r]) { pool[r] = new worker; auto p = pool[r]; std::thread([p, r] { ME = r; serve(*p); }).detach(); }
            std::lock_guard<std::mutex> l(pool[r]->mutex); pool[r]->own = own; pool[r]->busy = true; pool[r]->body = &body; pool[r]->cv.notify_all();
        }
        { std::unique_lock<std::mutex> l(w.mutex); w.cv.wait(l, [&] { return w.over || w.stopping; }); }
        if (! w.stopping) for (int r = 0; r < n; ++r) { std::unique_lock<std::mutex> l(pool[r]->mutex); pool[r]->cv.wait(l, [&] { return ! pool[r]->busy; }); }
        else pool.clear();   // they are left where they are
        outcome o;
        if (! w.stopping)
        {
            for (auto& m : w.messages) o.unreceived += ! m.taken && ! m.gone;
            if (w.bad.empty() && ! w.live_requests.empty()) w.bad = "a request was never completed";
            if (w.bad.empty() && ! w.live_comms.empty()) w.bad = "a communicator was never freed";
        }
        o.bad = w.bad; o.deadlock = w.deadlock; o.calls = w.calls; ++t.executions; t.calls += w.calls;
        trail = w.trail; trail.resize(w.position); W = nullptr; if (! w.stopping) delete own;
        check(o);
        while (! trail.empty() && trail.back().first + 1 == trail.back().second) trail.pop_back();
        if (trail.empty()) break;
        ++trail.back().first;
        if (t.executions >= limit) { t.capped = true; break; }
    }
    return t;
}
}

using namespace mpimodel;
static size_t width(MPI_Datatype t)
{
    if (t == MPI_CHAR || t == MPI_BYTE || t == MPI_SIGNED_CHAR || t == MPI_UNSIGNED_CHAR || t == MPI_INT8_T || t == MPI_UINT8_T) return 1;
    if (t == MPI_SHORT || t == MPI_UNSIGNED_SHORT) return 2;
    if (t == MPI_INT || t == MPI_UNSIGNED || t == MPI_FLOAT || t == MPI_INT32_T || t == MPI_UINT32_T) return 4;
    return 8;
}
extern "C" {
int MPI_Init(int*, char***) { return MPI_SUCCESS; }
int MPI_Finalize() { return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int* r) { enter(); ctx(c); *r = ME; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int* n) { enter(); ctx(c); *n = W->n; return MPI_SUCCESS; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* d)
{
    enter();
    int parent = ctx(c), k = W->dups[{parent, ME}]++, id = parent * 64 + k + 1;
    collective(c, "duplication", 0, {}, [] (auto&) {});
    W->comms.push_back({id, parent}); W->live_comms[&W->comms.back()] = ME; *d = (MPI_Comm) &W->comms.back();
    return MPI_SUCCESS;
}
int MPI_Comm_free(MPI_Comm* c) { enter(); ctx(*c); if (*c == MPI_COMM_WORLD) violate("the world is freed"); W->live_comms.erase(*c); *c = MPI_COMM_NULL; return MPI_SUCCESS; }
int MPI_Barrier(MPI_Comm c) { enter(); return collective(c, "barrier", 0, {}, [] (auto&) {}); }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { enter(); *n = s->_ucount % width(t) ? MPI_UNDEFINED : int(s->_ucount / width(t)); return MPI_SUCCESS; }

static bool match(request& r)
{
    if (r.send || r.m) return true;
    int keep = ME; ME = r.owner; auto k = candidates(r.source, r.tag, r.comm);
    if (! k.empty()) { r.m = k[choose(int(k.size()))]; if (! r.m->eager) { r.m->copy = data_of(*r.m); r.m->eager = true; } take(*r.m); }
    ME = keep; return r.m;
}
int MPI_Send(const void* p, int n, MPI_Datatype t, int to, int tag, MPI_Comm c)
{
    enter(); n *= int(width(t));
    int id = ctx(c); if (to < 0 || to >= W->n) violate("a message is sent to a rank that does not exist");
    readable(p, n, "a send");
    W->messages.push_back({ME, to, tag, id, W->rendezvous ? "" : std::string((const char*) p, n), (const char*) p, size_t(n), ! W->rendezvous});
    auto& m = W->messages.back(); ++W->version;
    if (W->rendezvous) yield([&m] { return m.taken; });
    return MPI_SUCCESS;
}
int MPI_Isend(const void* p, int n, MPI_Datatype t, int to, int tag, MPI_Comm c, MPI_Request* q)
{
    enter(); n *= int(width(t));
    int id = ctx(c); if (to < 0 || to >= W->n) violate("a message is sent to a rank that does not exist");
    readable(p, n, "a send");
    W->messages.push_back({ME, to, tag, id, W->rendezvous ? "" : std::string((const char*) p, n), (const char*) p, size_t(n), ! W->rendezvous});
    W->requests.push_back({true, (char*) p, size_t(n), ME, id, to, tag});
    auto& r = W->requests.back(); r.m = &W->messages.back(); W->messages.back().by = &r; r.done = ! W->rendezvous;
    *q = handle(r); ++W->version;
    return MPI_SUCCESS;
}
int MPI_Probe(int source, int tag, MPI_Comm c, MPI_Status* s)
{
    enter();
    int id = ctx(c), me = ME;
    yield([=] { int keep = ME; ME = me; bool any = ! candidates(source, tag, id).empty(); ME = keep; return any; });
    auto k = candidates(source, tag, id); auto& m = *k[choose(int(k.size()))]; m.seen = true; note(s, m);
    return MPI_SUCCESS;
}
int MPI_Iprobe(int source, int tag, MPI_Comm c, int* flag, MPI_Status* s)
{
    enter();
    int id = ctx(c);
    look();
    auto k = candidates(source, tag, id);
    if (k.empty()) { *flag = 0; W->vain[ME] = W->version; return MPI_SUCCESS; }
    bool seen = false; for (auto m : k) seen = seen || m->seen;
    int can_wait = ! seen && W->patience[ME] > 0;   // a message that was seen stays visible
    int i = choose(int(k.size()) + can_wait);
    if (i == int(k.size())) { --W->patience[ME]; *flag = 0; return MPI_SUCCESS; }
    *flag = 1; k[i]->seen = true; note(s, *k[i]);
    return MPI_SUCCESS;
}
int MPI_Recv(void* p, int n, MPI_Datatype t, int source, int tag, MPI_Comm c, MPI_Status* s)
{
    enter(); n *= int(width(t));
    int id = ctx(c), me = ME;
    yield([=] { int keep = ME; ME = me; bool any = ! candidates(source, tag, id).empty(); ME = keep; return any; });
    auto k = candidates(source, tag, id); auto& m = *k[choose(int(k.size()))];
    deliver(m, (char*) p, n); take(m); note(s, m);
    return MPI_SUCCESS;
}
int MPI_Irecv(void* p, int n, MPI_Datatype t, int source, int tag, MPI_Comm c, MPI_Request* q)
{
    enter(); n *= int(width(t));
    int id = ctx(c);
    W->requests.push_back({false, (char*) p, size_t(n), ME, id, source, tag}); auto& r = W->requests.back(); *q = handle(r);
    auto k = candidates(source, tag, id);
    if (! k.empty())
    {
        auto& m = *k[choose(int(k.size()))]; r.m = &m;
        if (m.size > r.size) violate(vf::cat("a message of ", m.size, " bytes is received into ", r.size, " bytes"));
        if (! m.eager) { m.copy = data_of(m); m.eager = true; }   // the sender is served when the match is made
        take(m);
        if (! W->late) finish(r);
    }
    return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request* q, MPI_Status*)
{
    if (*q == MPI_REQUEST_NULL) { enter(); return MPI_SUCCESS; }
    enter();
    auto& r = of(*q);
    if (r.cancel && ! r.done)   // a local operation: carried out or withdrawn
    {
        if (r.send) { if (choose(2) == 0) r.m->gone = true; else { r.m->copy = data_of(*r.m); r.m->eager = true; } r.done = true; }
        else if (r.m) finish(r);
        else r.done = true;
    }
    if (! r.done)
    {
        if (r.send) yield([&r] { return r.done; });
        else
        {
            if (! r.m) { int me = ME; yield([&r, me] { int keep = ME; ME = me; bool any = ! candidates(r.source, r.tag, r.comm).empty(); ME = keep; return any; }); match(r); }
            finish(r);
        }
    }
    W->live_requests.erase(&r); *q = MPI_REQUEST_NULL;
    return MPI_SUCCESS;
}
int MPI_Request_get_status(MPI_Request q, int* flag, MPI_Status*)
{
    if (q == MPI_REQUEST_NULL) { enter(); *flag = 1; return MPI_SUCCESS; }
    enter();
    auto& r = of(q);
    look();
    if (! r.done && ! r.send && r.m && (W->patience[ME] <= 0 || choose(2) == 0)) finish(r);
    else if (! r.done && ! r.send && r.m) { --W->patience[ME]; *flag = 0; return MPI_SUCCESS; }
    else match(r);
    *flag = r.done;
    if (! r.done) W->vain[ME] = W->version;
    return MPI_SUCCESS;
}
int MPI_Test(MPI_Request* q, int* flag, MPI_Status* s) { MPI_Request_get_status(*q, flag, s); if (*flag) MPI_Wait(q, s); return MPI_SUCCESS; }
int MPI_Cancel(MPI_Request* q) { enter(); of(*q).cancel = true; return MPI_SUCCESS; }
int MPI_Request_free(MPI_Request* q)
{
    enter();
    {
        auto& r = of(*q); r.freed = true; W->live_requests.erase(&r);
        // without a cancellation the operation goes on; with one it may
        if (r.cancel && ! r.done && ! r.m) r.done = true;
        else if (r.cancel && ! r.done && r.send && choose(2) == 0) { r.m->gone = true; r.done = true; }
    }
    *q = MPI_REQUEST_NULL; return MPI_SUCCESS;
}
int MPI_Bcast(void* p, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    enter();
    return collective(c, "broadcast", root, {(long) p, long(n * width(t))}, [root] (auto& a) { for (auto& x : a) { if (x[1] != a[root][1]) violate("ranks disagree about the size of a broadcast"); copy(x[0], a[root][0], x[1], "a broadcast"); } });
}
int MPI_Scatter(const void* p, int n, MPI_Datatype t, void* q, int m, MPI_Datatype u, int root, MPI_Comm c)
{
    enter();
    return collective(c, "scatter", root, {(long) p, long(n * width(t)), (long) q, long(m * width(u))}, [root] (auto& a) { for (size_t r = 0; r < a.size(); ++r) { if (a[r][3] != a[root][1]) violate("ranks disagree about the size of a scatter"); copy(a[r][2], a[root][0] + long(r) * a[root][1], a[r][3], "a scatter"); } });
}
int MPI_Scatterv(const void* p, const int n[], const int d[], MPI_Datatype t, void* q, int m, MPI_Datatype u, int root, MPI_Comm c)
{
    enter();
    long w = long(width(t));
    return collective(c, "scatter of lists", root, {(long) p, (long) n, (long) d, (long) q, long(m * width(u)), w}, [root] (auto& a)
    {
        auto n = (const int*) a[root][1], d = (const int*) a[root][2]; long w = a[root][5]; readable(n, a.size() * 4, "a scatter"); readable(d, a.size() * 4, "a scatter");
        for (size_t r = 0; r < a.size(); ++r) { if (n[r] * w != a[r][4]) violate("ranks disagree about the size of a scatter"); copy(a[r][3], a[root][0] + d[r] * w, n[r] * w, "a scatter"); }
    });
}
int MPI_Alltoall(const void* p, int n, MPI_Datatype t, void* q, int m, MPI_Datatype u, MPI_Comm c)
{
    enter();
    return collective(c, "all-to-all", 0, {(long) p, long(n * width(t)), (long) q, long(m * width(u))}, [] (auto& a) { for (size_t r = 0; r < a.size(); ++r) for (size_t s = 0; s < a.size(); ++s) { if (a[r][3] != a[s][1]) violate("ranks disagree about the size of an all-to-all"); copy(a[r][2] + long(s) * a[r][3], a[s][0] + long(r) * a[s][1], a[s][1], "an all-to-all"); } });
}
int MPI_Allgather(const void* p, int n, MPI_Datatype t, void* q, int m, MPI_Datatype u, MPI_Comm c)
{
    enter();
    return collective(c, "all-gather", 0, {(long) p, long(n * width(t)), (long) q, long(m * width(u))}, [] (auto& a) { for (size_t r = 0; r < a.size(); ++r) for (size_t s = 0; s < a.size(); ++s) { if (a[r][3] != a[s][1]) violate("ranks disagree about the size of an all-gather"); copy(a[r][2] + long(s) * a[r][3], a[s][0], a[s][1], "an all-gather"); } });
}
int MPI_Allgatherv(const void* p, int n, MPI_Datatype t, void* q, const int m[], const int d[], MPI_Datatype u, MPI_Comm c)
{
    enter();
    return collective(c, "all-gather of lists", 0, {(long) p, long(n * width(t)), (long) q, (long) m, (long) d, long(width(u))}, [] (auto& a)
    {
        for (size_t r = 0; r < a.size(); ++r) for (size_t s = 0; s < a.size(); ++s) { auto m = (const int*) a[r][3], d = (const int*) a[r][4]; long w = a[r][5]; if (m[s] * w != a[s][1]) violate("ranks disagree about the size of an all-gather"); copy(a[r][2] + d[s] * w, a[s][0], a[s][1], "an all-gather"); }
    });
}
// matched probes: the message is set aside for the receive that names it
static int mtake(message& m, MPI_Message* h, MPI_Status* s) { m.gone = true; *h = (MPI_Message) &m; note(s, m); return MPI_SUCCESS; }
int MPI_Mprobe(int source, int tag, MPI_Comm c, MPI_Message* h, MPI_Status* s)
{
    enter();
    int id = ctx(c), me = ME;
    yield([=] { int keep = ME; ME = me; bool any = ! candidates(source, tag, id).empty(); ME = keep; return any; });
    auto k = candidates(source, tag, id); return mtake(*k[choose(int(k.size()))], h, s);
}
int MPI_Improbe(int source, int tag, MPI_Comm c, int* flag, MPI_Message* h, MPI_Status* s)
{
    MPI_Status t; MPI_Iprobe(source, tag, c, flag, &t);
    if (! *flag) return MPI_SUCCESS;
    auto k = candidates(t.MPI_SOURCE, t.MPI_TAG, ctx(c)); return mtake(*k[0], h, s);
}
int MPI_Mrecv(void* p, int n, MPI_Datatype t, MPI_Message* h, MPI_Status* s)
{
    enter(); auto& m = *(message*) *h; deliver(m, (char*) p, n * width(t)); take(m); note(s, m); *h = MPI_MESSAGE_NULL; return MPI_SUCCESS;
}
int MPI_Imrecv(void* p, int n, MPI_Datatype t, MPI_Message* h, MPI_Request* q)
{
    enter(); auto& m = *(message*) *h;
    W->requests.push_back({false, (char*) p, n * width(t), ME, m.comm, m.src, m.tag}); auto& r = W->requests.back(); *q = handle(r); r.m = &m;
    if (m.size > r.size) violate(vf::cat("a message of ", m.size, " bytes is received into ", r.size, " bytes"));
    if (! m.eager) { m.copy = data_of(m); m.eager = true; }
    take(m); if (! W->late) finish(r);
    *h = MPI_MESSAGE_NULL; return MPI_SUCCESS;
}
}
