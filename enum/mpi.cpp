// C23: the communication layer on a model of message passing.
#include <cstring>
#include <stdexcept>
#include "mpi_model.hpp"
#include "core_mpi.hpp"

namespace {

using vf::cat;
using strings = std::vector<std::string>;
std::string text(int from, int k, int size) { std::string s; for (int i = 0; i < size; ++i) s += char('A' + (from * 7 + k * 3 + i * 5) % 53); return s; }
std::string show(const std::string& s) { return cat(s.size(), " bytes '", s.substr(0, 20), "'"); }

// runs a scenario under all choices
void all(vf::ctx& c, int n, const std::function<void(int)>& body, long unreceived=0, const std::function<void(const mpimodel::outcome&)>& more={}, bool may_block=false)
{
    auto t = mpimodel::explore(n, body, [&] (const mpimodel::outcome& o)
    {
        CHECK(o.bad.empty(), o.bad);
        CHECK(may_block || ! o.deadlock, "the processes wait for each other for ever");
        if (! o.deadlock) CHECK(unreceived < 0 || o.unreceived == unreceived, o.unreceived, " messages were not received");
        if (more) more(o);
    });
    if (t.capped) c.cut = true;
    c.step(t.calls); c.state(vf::mix(vf::hash(c.group), c.index)); for (long i = 0; i < t.executions; ++i) c.state(vf::mix(vf::mix(vf::hash(c.group), c.index), i));
    c.interesting(t.executions > 4);
}

struct world { mpi::Communicator comm; world() : comm(mpi::comm_world()) {} };

// ---------------------------------------------------------------- ways to send
const char* send_name[] = {"send", "isend+wait", "isend+get", "isend, moved, wait", "isend, move-assigned, wait", "isend into a vector, wait", "isend+poll"};
const int send_kinds = 7;
void wait_all(std::vector<mpi::Request>& r) { for (auto& x : r) x.wait(); }
void poll(mpi::Request& r) { while (! r.is_ready()) {} }
void send_one(const mpi::Communicator& comm, int kind, std::string s, int to, int tag, std::vector<mpi::Request>& pending)
{
    switch (kind)
    {
        case 0: comm.send(s, to, tag); break;
        case 1: { auto r = comm.isend(s, to, tag); CHECK(! r.is_null(), "a request for a send is null"); r.wait(); CHECK(r.is_null(), "a completed request is not null"); break; }
        case 2: { auto r = comm.isend(s, to, tag); auto t = r.get(); CHECK(t == s, "the content of a send is ", show(t), " instead of ", show(s)); break; }
        case 3: { auto r = comm.isend(s, to, tag); auto q = std::move(r); CHECK(r.is_null() && ! q.is_null(), "moving a request"); q.wait(); break; }
        case 4: { mpi::Request q; CHECK(q.is_null(), "an empty request is not null"); { auto r = comm.isend(s, to, tag); q = std::move(r); CHECK(r.is_null(), "a moved-from request"); } q.wait(); break; }
        case 5: pending.push_back(comm.isend(s, to, tag)); break;
        case 6: { auto r = comm.isend(s, to, tag); poll(r); CHECK(! r.is_null(), "looking at a request consumed it"); r.wait(); CHECK(r.is_null(), "a completed request is not null"); break; }
    }
}
const char* recv_name[] = {"recv(any,any)", "recv(source,any)", "recv(any,tag)", "recv(source,tag)", "probe+recv", "irecv+get", "irecv, moved, get", "irecv+poll+get", "iprobe+recv", "irecv, move-assigned, get"};
const int recv_kinds = 10;
std::string recv_one(const mpi::Communicator& comm, int kind, int from, int tag)
{
    using namespace mpi;
    auto post = [&] (int s, int t) { while (true) { auto r = comm.irecv(s, t); if (! r.is_null()) return r; } };
    switch (kind)
    {
        case 0: return comm.recv();
        case 1: return comm.recv(from);
        case 2: return comm.recv(any_source, tag);
        case 3: return comm.recv(from, tag);
        case 4: { auto s = comm.probe(from, tag); CHECK(! s.is_null() && s.source() == from && s.tag() == tag, "the probed status names rank ", s.source(), " and tag ", s.tag()); auto n = s.count(); auto r = comm.recv(s.source(), s.tag()); CHECK(int(r.size()) == n, "the probed size is ", n, " and ", r.size(), " bytes arrive"); return r; }
        case 5: { auto r = post(from, tag); auto s = r.get(); CHECK(r.is_null(), "a completed request is not null"); return s; }
        case 6: { auto r = post(from, tag); auto q = std::move(r); CHECK(r.is_null() && ! q.is_null(), "moving a request"); return q.get(); }
        case 7: { auto r = post(from, tag); poll(r); CHECK(! r.is_null(), "looking at a request consumed it"); return r.get(); }
        case 8: { auto s = comm.iprobe(from, tag); while (s.is_null()) { CHECK(s.count() == 0 && s.source() == -1 && s.tag() == -1, "an empty status"); s = comm.iprobe(from, tag); } CHECK(s.source() == from && s.tag() == tag, "the probed status names rank ", s.source(), " and tag ", s.tag()); auto n = s.count(); auto r = comm.recv(s.source(), s.tag()); CHECK(int(r.size()) == n, "the probed size is ", n, " and ", r.size(), " bytes arrive"); return r; }
        default: { mpi::Request q; { auto r = post(from, tag); q = std::move(r); } auto s = q.get(); return s; }
    }
}
const int sizes[] = {0, 1, 15, 16, 17, 40};

// one message, every way to send and receive it, from either rank
void single(vf::ctx& c)
{
    for (int from = 0; from < 2; ++from) for (int s = 0; s < send_kinds; ++s) for (int r = 0; r < recv_kinds; ++r) for (int size : sizes) for (int tag : {0, 3})
        c.each([&] (std::ostream& o) { o << "rank " << from << " " << send_name[s] << " of " << size << " bytes, tag " << tag << "; " << recv_name[r]; }, [&]
        {
            all(c, 2, [&] (int me)
            {
                world w; auto sent = text(from, 0, size);
                if (me == from) { std::vector<mpi::Request> p; send_one(w.comm, s, sent, 1 - from, tag, p); wait_all(p); }
                else { auto got = recv_one(w.comm, r, from, tag); CHECK(got == sent, "received ", show(got), " instead of ", show(sent)); }
            });
        });
}

// two or three messages from one rank: order, tags and contents
void stream(vf::ctx& c)
{
    const int kinds[] = {0, 1, 5}; const int rk[] = {0, 3, 5, 7};
    for (int s : kinds) for (int r : rk) for (int a : {0, 1, 15, 40}) for (int b : {1, 16, 0}) for (int tags = 0; tags < 3; ++tags) for (int back = 0; back < (tags && r != 0 && s == 5 ? 2 : 1); ++back)
        c.each([&] (std::ostream& o) { o << send_name[s] << " of " << a << " and " << b << " bytes, tags " << (tags ? "0,1" : "0,0") << "; " << recv_name[r] << (back ? " in the other order" : ""); }, [&]
        {
            all(c, 2, [&] (int me)
            {
                world w; strings sent{text(0, 0, a), text(0, 1, b)}; int tag[] = {tags == 2 ? 1 : 0, tags == 1 ? 1 : 0};
                if (me == 0) { std::vector<mpi::Request> p; for (int k = 0; k < 2; ++k) send_one(w.comm, s, sent[k], 1, tag[k], p); wait_all(p); }
                else for (int k = 0; k < 2; ++k) { int i = back ? 1 - k : k; auto got = recv_one(w.comm, r, 0, tag[i]); CHECK(got == sent[i], "message ", i, " arrives as ", show(got), " instead of ", show(sent[i])); }
            });
        });
}

// several receives in flight at once
void inflight(vf::ctx& c)
{
    for (int a : {1, 15, 16, 40}) for (int b : {0, 2, 17}) for (int d : {3, 20}) for (int order = 0; order < 6; ++order)
        c.each([&] (std::ostream& o) { o << "three messages of " << a << ", " << b << ", " << d << " bytes in flight, completed in order " << order; }, [&]
        {
            const int perm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
            all(c, 2, [&] (int me)
            {
                world w; strings sent{text(0, 0, a), text(0, 1, b), text(0, 2, d)};
                std::vector<mpi::Request> p;
                if (me == 0) { for (int k = 0; k < 3; ++k) p.push_back(w.comm.isend(sent[k], 1, 0)); for (int k : perm[order]) p[k].wait(); }
                else
                {
                    for (int k = 0; k < 3; ++k) while (true) { auto r = w.comm.irecv(0, 0); if (! r.is_null()) { p.push_back(std::move(r)); break; } }
                    for (int k : perm[order]) { auto got = p[k].get(); CHECK(got == sent[k], "message ", k, " arrives as ", show(got), " instead of ", show(sent[k])); }
                }
            });
        });
}

// two senders and a receiver that takes what comes
void wildcard(vf::ctx& c)
{
    const int rk[] = {0, 2, 5, 8, 4};
    for (int r : rk) for (int s : {0, 1, 5}) for (int a : {1, 16, 40}) for (int b : {0, 2, 17, 16}) for (int tags = 0; tags < 2; ++tags) for (int n = 1; n <= c.pick(1, 2); ++n)
    {
        if (n == 2 && (s != 0 || (r != 0 && r != 5 && r != 4) || a == 16 || b == 16 || tags)) continue;
        c.each([&] (std::ostream& o) { o << "two senders (" << send_name[s] << ", " << a << " and " << b << " bytes, " << n << " each, " << (tags ? "different tags" : "same tag") << "); " << (r == 5 ? "irecv(any)" : r == 8 ? "iprobe(any)+recv" : r == 4 ? "probe(any)+recv" : recv_name[r]); }, [&]
        {
            all(c, 3, [&] (int me)
            {
                world w; using namespace mpi;
                auto size = [&] (int from, int k) { return (from == 1 ? a : b) + k * 3; };
                auto tag = [&] (int from) { return tags ? from : 0; };
                if (me) { std::vector<mpi::Request> p; for (int k = 0; k < n; ++k) send_one(w.comm, s, text(me, k, size(me, k)), 0, tag(me), p); wait_all(p); return; }
                std::map<int, int> next{{1, 0}, {2, 0}};
                for (int k = 0; k < 2 * n; ++k)
                {
                    std::string got; int from = -1;
                    if (r == 0) got = w.comm.recv();
                    else if (r == 2) { if (tags) { from = 1 + k % 2; got = w.comm.recv(any_source, tag(from)); } else got = w.comm.recv(any_source, 0); }
                    else if (r == 5) { while (true) { auto q = w.comm.irecv(); if (! q.is_null()) { got = q.get(); break; } } }
                    else { auto s = r == 4 ? w.comm.probe() : w.comm.iprobe(); while (s.is_null()) s = w.comm.iprobe(); from = s.source(); CHECK(s.tag() == tag(from), "the status names tag ", s.tag(), " for a message of rank ", from); int m = s.count(); got = w.comm.recv(from, s.tag()); CHECK(int(got.size()) == m, "the probed size is ", m, " and ", got.size(), " bytes arrive"); }
                    bool found = false;
                    for (int f = 1; f <= 2 && ! found; ++f) if ((from < 0 || f == from) && next[f] < n && got == text(f, next[f], size(f, next[f]))) { ++next[f]; found = true; }
                    CHECK(found, "received ", show(got), ", which nobody sent next");
                }
            });
        });
    }
}

// requests that are dropped, cancelled or replaced while they are pending
void dropped(vf::ctx& c)
{
    for (int how = 0; how < 7; ++how) for (int size : sizes) for (int extra : {1, 20})
        c.each([&] (std::ostream& o) { const char* n[] = {"a send is dropped", "a send is cancelled", "a send is replaced by another", "a receive is dropped", "a receive is cancelled", "a receive is replaced by an empty request", "a send is cancelled after it completed"}; o << n[how] << ", " << size << " bytes, the next message has " << extra; }, [&]
        {
            all(c, 2, [&] (int me)
            {
                world w; auto first = text(0, 0, size), second = text(0, 1, extra);
                if (me == 0)
                {
                    if (how == 0) { { auto r = w.comm.isend(first, 1, 1); } w.comm.send(second, 1, 2); }
                    else if (how == 1) { auto r = w.comm.isend(first, 1, 1); r.cancel(); CHECK(r.is_null(), "a cancelled request is not null"); r.cancel(); r.wait(); w.comm.send(second, 1, 2); }
                    else if (how == 2) { auto r = w.comm.isend(first, 1, 1); r = w.comm.isend(second, 1, 2); CHECK(! r.is_null(), "the new request is null"); r.wait(); }
                    else if (how == 6) { auto r = w.comm.isend(first, 1, 1); r.wait(); r.cancel(); CHECK(r.is_null(), "a completed request is not null"); w.comm.send(second, 1, 2); }
                    else { w.comm.send(first, 1, 1); w.comm.send(second, 1, 2); }
                }
                else
                {
                    if (how == 3) { auto r = w.comm.irecv(0, 1); while (r.is_null()) r = w.comm.irecv(0, 1); }
                    if (how == 4) { auto r = w.comm.irecv(0, 1); while (r.is_null()) r = w.comm.irecv(0, 1); r.cancel(); CHECK(r.is_null(), "a cancelled request is not null"); }
                    if (how == 5) { auto r = w.comm.irecv(0, 1); while (r.is_null()) r = w.comm.irecv(0, 1); r = mpi::Request(); CHECK(r.is_null(), "a replaced request is not null"); }
                    if (how == 6) { auto got = w.comm.recv(0, 1); CHECK(got == first, "received ", show(got)); }
                    // a message that follows is not disturbed
                    auto got = w.comm.recv(0, 2); CHECK(got == second, "received ", show(got), " instead of ", show(second));
                    // one that was given up either arrives whole or not at all
                    if (how < 3) { auto s = w.comm.iprobe(0, 1); if (! s.is_null()) { auto late = w.comm.recv(0, 1); CHECK(late == first, "received ", show(late), " instead of ", show(first)); } }
                }
            }, -1);
        });
}

struct point { int a; double b; char c; };
bool same(point p, point q) { return p.a == q.a && p.b == q.b && p.c == q.c; }

// typed messages
void typed(vf::ctx& c)
{
    for (int s = 0; s < 2; ++s) for (int r = 0; r < 2; ++r) for (int what = 0; what < 4; ++what) for (int as = 0; as < 4; ++as)
        c.each([&] (std::ostream& o) { const char* n[] = {"char", "int", "double", "struct"}; o << (s ? "isend" : "send") << " of a " << n[what] << ", " << (r ? "irecv" : "recv") << " of a " << n[as]; }, [&]
        {
            all(c, 2, [&] (int me)
            {
                world w; auto& k = w.comm; const char C = 'q'; const int I = 70001; const double D = -1.5e-7; const point P{3, 2.5, 'z'};
                auto send = [&] (auto v) { if (s) { auto q = k.isend(v, 1, 4); q.wait(); } else k.send(v, 1, 4); };
                auto check = [&] (auto v, bool fit)
                {
                    using T = decltype(v); T got{}; bool thrown = false;
                    if (r == 0) { try { got = k.template recv<T>(0, 4); } catch (const std::logic_error&) { thrown = true; } }
                    else { auto q = k.irecv(0, 4); while (q.is_null()) q = k.irecv(0, 4); try { got = q.template get<T>(); } catch (const std::logic_error&) { thrown = true; } q.wait(); }
                    CHECK(thrown == ! fit, fit ? "a value of the right type is refused" : "a value of the wrong size is accepted");
                    return got;
                };
                if (me == 0) { if (what == 0) send(C); if (what == 1) send(I); if (what == 2) send(D); if (what == 3) send(P); }
                else
                {
                    if (as == 0) { auto v = check(char(), what == 0); CHECK(what != 0 || v == C, "received ", int(v)); }
                    if (as == 1) { auto v = check(int(), what == 1); CHECK(what != 1 || v == I, "received ", v); }
                    if (as == 2) { auto v = check(double(), what == 2); CHECK(what != 2 || v == D, "received ", v); }
                    if (as == 3) { auto v = check(point(), what == 3); CHECK(what != 3 || same(v, P), "received ", v.a, " ", v.b, " ", v.c); }
                }
            });
        });
}

// collective operations
void collective(vf::ctx& c)
{
    for (int n = 1; n <= c.pick(3, 4); ++n)
    {
        c.each([&] (std::ostream& o) { o << "rank and size of " << n; }, [&] { all(c, n, [&] (int me) { world w; CHECK(w.comm.rank() == me && w.comm.size() == n, "rank ", w.comm.rank(), " of ", w.comm.size()); CHECK(mpi::is_master() == (me == 0), "the master"); mpi::Communicator none; CHECK(none.is_null() && none.size() == 0 && none.rank() == -1, "a null communicator"); }); });
        c.each([&] (std::ostream& o) { o << "barrier of " << n; }, [&]
        {
            int arrived = 0;
            if (n == 4) return;
            all(c, n, [&] (int me) { world w; w.comm.barrier(); if (me == 0) arrived = 0; w.comm.barrier(); ++arrived; w.comm.barrier(); CHECK(arrived == n, "a rank passed the barrier when ", arrived, " of ", n, " had arrived"); w.comm.barrier(); });
        });
        for (int root = 0; root < n; ++root)
        {
            c.each([&] (std::ostream& o) { o << "broadcast from " << root << " of " << n; }, [&] { all(c, n, [&] (int me) { world w; int v = 100 + me; w.comm.bcast(root, v); CHECK(v == 100 + root, "rank ", me, " has ", v); point p{me, me * 0.5, char('a' + me)}; w.comm.bcast(root, p); CHECK(same(p, {root, root * 0.5, char('a' + root)}), "rank ", me, " has ", p.a, " ", p.b); }); });
            for (int len = 0; len <= n + 1; ++len) for (int other = 0; other < 2; ++other)
                c.each([&] (std::ostream& o) { o << "scatter of " << len << " values from " << root << " of " << n << (other ? ", others offer nothing" : ""); }, [&]
                {
                    bool good = len == n;
                    all(c, n, [&] (int me)
                    {
                        world w; std::vector<double> v; if (me == root || ! other) for (int i = 0; i < len; ++i) v.push_back(me * 10 + i + 0.25);
                        if (! good && me != root) return;
                        if (! good) { CHECK(vf::throws_as<std::invalid_argument>([&] { w.comm.scatter(root, v); }), "a scatter of ", len, " values to ", n, " ranks is accepted"); return; }
                        auto x = w.comm.scatter(root, v); CHECK(x == root * 10 + me + 0.25, "rank ", me, " has ", x);
                    });
                });
            int total = 1; for (int i = 0; i < n; ++i) total *= 3;
            for (int code = 0; code < total; ++code)
                c.each([&] (std::ostream& o) { o << "scatter of lists " << code << " from " << root << " of " << n; }, [&]
                {
                    all(c, n, [&] (int me)
                    {
                        world w; std::vector<std::vector<int>> v; int k = code, mine = 0;
                        for (int i = 0; i < n; ++i, k /= 3) { std::vector<int> x; for (int j = 0; j < k % 3; ++j) x.push_back(i * 100 + j); if (i == me) mine = k % 3; v.push_back(x); }
                        auto x = w.comm.scatter(root, me == root ? v : std::vector<std::vector<int>>{});
                        CHECK(int(x.size()) == mine, "rank ", me, " has ", x.size(), " values instead of ", mine);
                        for (int j = 0; j < mine; ++j) CHECK(x[j] == me * 100 + j, "rank ", me, " has ", x[j]);
                    });
                });
            c.each([&] (std::ostream& o) { o << "scatter of too few lists from " << root << " of " << n; }, [&] { all(c, n, [&] (int me) { world w; if (me == root) for (int m : {n - 1, n + 1}) CHECK(vf::throws_as<std::invalid_argument>([&] { w.comm.scatter(root, std::vector<std::vector<int>>(m)); }), "accepted"); }); });
        }
        for (int len = 0; len <= n + 1; ++len)
            c.each([&] (std::ostream& o) { o << "all-to-all of " << len << " values among " << n; }, [&]
            {
                all(c, n, [&] (int me)
                {
                    world w; std::vector<double> v; for (int i = 0; i < len; ++i) v.push_back(me * 10 + i + 0.5);
                    if (len != n) { CHECK(vf::throws_as<std::invalid_argument>([&] { w.comm.all_to_all(v); }), "an all-to-all of ", len, " values among ", n, " ranks is accepted"); return; }
                    auto x = w.comm.all_to_all(v); CHECK(int(x.size()) == n, "received ", x.size()); for (int i = 0; i < n; ++i) CHECK(x[i] == i * 10 + me + 0.5, "rank ", me, " has ", x[i], " from ", i);
                });
            });
        c.each([&] (std::ostream& o) { o << "all-gather among " << n; }, [&] { all(c, n, [&] (int me) { world w; auto x = w.comm.all_gather(me * 3 + 1); CHECK(int(x.size()) == n, "received ", x.size()); for (int i = 0; i < n; ++i) CHECK(x[i] == i * 3 + 1, "rank ", me, " has ", x[i], " from ", i); }); });
        int total = 1; for (int i = 0; i < n; ++i) total *= 3;
        for (int code = 0; code < total; ++code)
            c.each([&] (std::ostream& o) { o << "all-gather of lists " << code << " among " << n; }, [&]
            {
                all(c, n, [&] (int me)
                {
                    world w; std::vector<std::vector<double>> v; int k = code;
                    for (int i = 0; i < n; ++i, k /= 3) { std::vector<double> x; for (int j = 0; j < k % 3; ++j) x.push_back(i * 100 + j + 0.5); v.push_back(x); }
                    auto x = w.comm.all_gather(v[me]); CHECK(x == v, "rank ", me, " has other lists");
                });
            });
        // collective and pointed messages do not mix
        if (n >= 2) for (int size : {1, 30}) c.each([&] (std::ostream& o) { o << "a message of " << size << " bytes around a broadcast among " << n; }, [&]
        {
            all(c, n, [&] (int me)
            {
                world w; auto s = text(0, 0, size); int v = me;
                if (me == 0) { auto r = w.comm.isend(s, 1, 0); w.comm.bcast(0, v); r.wait(); }
                else { w.comm.bcast(0, v); if (me == 1) { auto got = w.comm.recv(0, 0); CHECK(got == s, "received ", show(got)); } }
                CHECK(v == 0, "broadcast ", v);
            });
        });
    }
}

// communicators as values; every operation is performed by both ranks
void communicators(vf::ctx& c)
{
    // slots: 0 and 1 hold a communicator of their own at first, 2 is null
    struct op { int kind, a, b; };
    std::vector<op> ops;
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { ops.push_back({0, a, b}); ops.push_back({1, a, b}); if (a != b) { ops.push_back({3, a, b}); } }
    for (int a = 0; a < 3; ++a) { ops.push_back({2, a, a}); ops.push_back({4, a, a}); }
    int depth = c.pick(2, 3);
    std::function<void(std::vector<op>)> go = [&] (std::vector<op> s)
    {
        if (! s.empty()) c.each([&] (std::ostream& o) { const char* n[] = {"copy-assign", "move-assign", "close", "move-construct", "copy and drop"}; for (auto& x : s) o << n[x.kind] << "(" << x.a << "," << x.b << ") "; }, [&]
        {
            all(c, 2, [&] (int me)
            {
                mpi::Communicator k[3]; k[0] = mpi::comm_world(); k[1] = mpi::comm_world();
                bool valid[3] = {true, true, false};
                for (auto& x : s)
                {
                    if (x.kind == 0) { auto& from = k[x.b]; k[x.a] = from; valid[x.a] = valid[x.b]; }
                    if (x.kind == 1) { auto& from = k[x.b]; k[x.a] = std::move(from); if (x.a != x.b) { valid[x.a] = valid[x.b]; valid[x.b] = false; } }
                    if (x.kind == 2) { k[x.a].close(); valid[x.a] = false; }
                    if (x.kind == 3) { mpi::Communicator t(std::move(k[x.b])); CHECK(k[x.b].is_null() && t.is_null() == ! valid[x.b], "moving a communicator"); k[x.a] = std::move(t); valid[x.a] = valid[x.b]; valid[x.b] = false; }
                    if (x.kind == 4) { mpi::Communicator t(k[x.a]); CHECK(t.is_null() == ! valid[x.a], "the copy of a communicator"); if (valid[x.a]) t.barrier(); }
                    for (int i = 0; i < 3; ++i)
                    {
                        CHECK(k[i].is_null() == ! valid[i], "communicator ", i, valid[i] ? " was lost" : " is not null");
                        CHECK(k[i].size() == (valid[i] ? 2 : 0) && k[i].rank() == (valid[i] ? me : -1), "communicator ", i, " has rank ", k[i].rank(), " of ", k[i].size());
                    }
                }
                // each one that is left carries its own messages
                std::vector<mpi::Request> p;
                if (me == 0) { for (int i = 0; i < 3; ++i) if (valid[i]) p.push_back(k[i].isend(text(0, i, 5 + i), 1, 0)); wait_all(p); }
                else for (int i = 2; i >= 0; --i) if (valid[i]) { auto got = k[i].recv(0, 0); CHECK(got == text(0, i, 5 + i), "communicator ", i, " delivers ", show(got)); }
            });
        });
        if (int(s.size()) == depth) return;
        for (auto& x : ops) { auto t = s; t.push_back(x); go(t); }
    };
    go({});
}

}

int main(int argc, char** argv)
{
    return vf::main(argc, argv, {{"single", single}, {"stream", stream}, {"inflight", inflight}, {"wildcard", wildcard}, {"dropped", dropped}, {"typed", typed}, {"collective", collective}, {"communicators", communicators}});
}
