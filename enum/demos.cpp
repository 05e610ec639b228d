// C27: the program selector runs what it is told to, and the two demonstration
// programs show what they claim: a tree of blocks on which a pulse is carried
// along, and a domain divided into blocks.
#include "runs.hpp"
#include "trees.hpp"
using sim::strings;
using vf::ctx;

extern "C" int mara_main(int argc, const char* argv[]);   // the real main of the program
std::unique_ptr<mara::sub_program_t> make_subprog_amrsand();
std::unique_ptr<mara::sub_program_t> make_subprog_partdom();

// stands in for the collection of unit tests: says what it was given
struct stub : mara::sub_program_t
{
    int main(int argc, const char* argv[]) override
    {
        printf("STUB %d\n", argc); for (int i = 1; i < argc; ++i) printf("ARG<%s>\n", argv[i]);
        if (argc > 1 && ! strncmp(argv[1], "throw", 5)) throw std::runtime_error("stub");
        return argc > 1 ? atoi(argv[1]) : 0;
    }
    std::string name() const override { return "test"; }
};
std::unique_ptr<mara::sub_program_t> make_subprog_test() { return std::make_unique<stub>(); }

static int child(int argc, char** argv)
{
    std::string p = argv[2];
    if (p != "mara" && p != "amrsand" && p != "partdom") return sim::child(argc, argv);
    std::vector<const char*> a(argv + 2, argv + argc); a.push_back(nullptr);
    int code = 99;
    try { code = p == "mara" ? mara_main(argc - 2, a.data()) : p == "amrsand" ? make_subprog_amrsand()->main(argc - 2, a.data()) : make_subprog_partdom()->main(argc - 2, a.data()); }
    catch (...) { printf("\nEXCEPTION\n"); fflush(stdout); _exit(97); }
    fflush(stdout);
    return code;
}

static std::string args_of(const strings& a) { std::string r; for (auto& x : a) r += " [" + x + "]"; return r; }
static strings with(const std::string& p, strings a) { a.insert(a.begin(), p); return a; }
static bool says(const std::string& text, const std::string& what) { return text.find(what) != std::string::npos; }
static void files(const std::string& dir, const std::string& at, std::map<std::string, std::string>& r)
{
    for (auto& n : sim::entries(dir)) { struct stat s; auto p = dir + "/" + n; if (! lstat(p.c_str(), &s) && S_ISDIR(s.st_mode)) { r[at + n + "/"] = ""; files(p, at + n + "/", r); } else r[at + n] = p; }
}

// ---------------------------------------------------------------- selection
static const strings NAMES = {"amrsand", "binary", "boilerplate", "cloud", "partdom", "sedov", "test"};
static void selection(ctx& c)
{
    c.each([] (auto& o) { o << "no arguments"; }, [&]
    {
        auto dir = sim::fresh("none"); auto r = sim::run("mara", {}, dir); ++c.transitions;
        CHECK(r.ok(), r.what); CHECK(sim::entries(dir).empty(), "files are written");
        std::set<std::string> words; std::istringstream in(r.out); std::string w; while (in >> w) words.insert(w);
        for (auto& n : NAMES) CHECK(words.count(n), n, " is not listed");
        CHECK(! says(r.out, "STUB"), "a program is run");
    });
    for (std::string n : {"", " ", "bin", "binar", "binaryx", "Binary", "BINARY", "binary ", " binary", "help", "--help", "-h", "sedo", "amrsan", "tes", "test ", "restart=a", "cloud=1", "..", "zzz", "a"})
        for (strings rest : {strings{}, strings{"binary"}, strings{"3"}})
            c.each([&] (auto& o) { o << "unknown program '" << n << "'" << args_of(rest); }, [&]
            {
                ++c.nontrivial;
                auto dir = sim::fresh("unknown"); auto r = sim::run("mara", with(n, rest), dir); ++c.transitions;
                CHECK(! r.signalled && ! r.hung && r.code != 86 && r.code != 97, r.what);
                CHECK(sim::entries(dir).empty(), "files are written"); CHECK(! says(r.out, "STUB"), "a program is run");
                CHECK(says(r.out, n), "the message does not name '", n, "': ", r.out);
            });
    // arguments and exit codes pass unchanged
    for (int code : {0, 1, 2, 3, 7, 42, 100, 127, 255})
        for (strings rest : {strings{}, strings{"a=b"}, strings{"", "x y", "test"}, strings{"--", "-n", "=", "a=b=c", "9"}})
            c.each([&] (auto& o) { o << "test " << code << args_of(rest); }, [&]
            {
                ++c.nontrivial;
                auto dir = sim::fresh("stub"); auto r = sim::run("mara", with("test", with(std::to_string(code), rest)), dir); ++c.transitions;
                CHECK(r.code == code && ! r.signalled && ! r.hung, "exit code ", code, " is returned as ", r.code);
                std::string want = vf::cat("STUB ", rest.size() + 2, "\nARG<", code, ">\n"); for (auto& x : rest) want += "ARG<" + x + ">\n";
                CHECK(says(r.out, want), "the arguments become ", r.out); CHECK(sim::entries(dir).empty(), "files are written");
            });
    c.each([] (auto& o) { o << "a program that throws"; }, [&] { auto r = sim::run("mara", {"test", "throw"}, sim::fresh("throw")); CHECK(says(r.out, "STUB 2"), "it is not run"); CHECK(! r.ok() && ! r.hung, "success is reported"); });
    // each program does what it does by itself
    std::vector<std::pair<std::string, strings>> table = {
        {"amrsand", {"depth=1", "block_size=2", "tfinal=0.5", "dfi=0"}}, {"amrsand", {"depth=2", "block_size=2", "tfinal=0.5", "dfi=0.2", "outdir=x"}},
        {"partdom", {"N=2", "procs=2"}}, {"partdom", {"N=3", "procs=4"}},
        {"sedov", {"nr=16", "tfinal=0.2", "cpi=0.1", "dfi=0.1", "tsi=0.1", "outer_radius=3", "outdir=x"}}, {"sedov", {"nr=8", "tfinal=0.1", "cpi=0.1", "outer_radius=3", "outdir=y"}},
        {"cloud", {"nr=8", "tfinal=0.1", "cpi=0.05", "num_decades=1", "outdir=x"}},
        {"binary", {"depth=1", "block_size=4", "tfinal=0.01", "cpi=0.005", "domain_radius=6", "threaded=1", "outdir=x"}},
        {"boilerplate", {"tfinal=0.3"}}, {"boilerplate", {}}};
    for (auto& t : table)
        c.each([&] (auto& o) { o << "mara " << t.first << args_of(t.second) << " and the program itself"; }, [&]
        {
            ++c.nontrivial;
            auto a = sim::fresh("through"), b = sim::fresh("itself");
            auto r = sim::run("mara", with(t.first, t.second), a), q = sim::run(t.first, t.second, b); c.transitions += 2;
            CHECK(q.ok(), "the program fails: ", q.what); CHECK(r.code == q.code && r.ok(), "exit ", r.code, " instead of ", q.code, ": ", r.what);
            std::map<std::string, std::string> fa, fb; files(a, "", fa); files(b, "", fb);
            CHECK(! fb.empty(), "the program leaves no files");
            for (auto& x : fb) CHECK(fa.count(x.first), x.first, " is missing");
            for (auto& x : fa) { CHECK(fb.count(x.first), x.first, " is new"); if (x.first.size() > 3 && x.first.substr(x.first.size() - 3) == ".h5") { sim::contents ca, cb; CHECK(sim::dump(x.second, ca) && sim::dump(fb[x.first], cb), "cannot read ", x.first); auto d = sim::difference(cb, ca); CHECK(d.empty(), x.first, ": ", d); c.state(sim::digest(ca)); } }
        });
    for (auto& n : NAMES) if (n != "test")
        c.each([&] (auto& o) { o << "mara " << n << " with an option it does not have"; }, [&]
        {
            auto dir = sim::fresh("refused"); auto r = sim::run("mara", {n, "nosuchoption=1"}, dir); ++c.transitions;
            CHECK(! r.ok() && ! r.hung, "success is reported"); CHECK(r.code != 86, r.what);
        });
}

// ------------------------------------------------------------------ amrsand
using node = ref::addr<2>;
using mesh = ref::shape<2>;
static mesh expected_mesh(int depth)
{
    mesh m; std::function<void(node)> grow = [&] (node a)
    {
        double h = 2.0 / (1 << a.level), x = -1 + h * (a.x[0] + 0.5), y = -1 + h * (a.x[1] + 0.5);
        if (int(a.level) < depth && (a.level == 0 || std::hypot(x, y) < 1.0 / a.level)) { m.branches.insert(a); for (int n = 0; n < 4; ++n) grow(a.child(n)); }
    };
    grow({});
    std::function<std::size_t(node)> below = [&] (node a) -> std::size_t { if (! m.branches.count(a)) return 0; std::size_t d = 0; for (int n = 0; n < 4; ++n) d = std::max(d, below(a.child(n))); return d + 1; };
    for (bool more = true; more;)
    {
        more = false;
        for (auto a : m.leaves()) for (int axis : {0, 1}) for (int s : {-1, 1}) if (m.is_leaf(a) && below(a.shifted(axis, s)) > 1) { m.branches.insert(a); more = true; }
    }
    return m;
}
struct field
{
    int N = 0; const mesh* m = nullptr; std::map<node, std::vector<double>> v;
    // the value of cell (i, j) of a uniform grid of the given level, periodic
    double cell(std::size_t level, long i, long j) const
    {
        long n = long(N) << level; i = (i % n + n) % n; j = (j % n + n) % n;
        node a; a.level = level; a.x = {std::size_t(i / N), std::size_t(j / N)};
        if (m->is_leaf(a)) return v.at(a)[(i % N) * N + j % N];
        if (m->branches.count(a)) return 0.25 * (cell(level + 1, 2 * i, 2 * j) + cell(level + 1, 2 * i + 1, 2 * j) + cell(level + 1, 2 * i, 2 * j + 1) + cell(level + 1, 2 * i + 1, 2 * j + 1));
        return cell(level - 1, i / 2, j / 2);
    }
};
static std::vector<double> numbers(const sim::object& o) { std::vector<double> r(o.bytes.size() / 8); memcpy(r.data(), o.bytes.data(), r.size() * 8); return r; }
static std::map<node, std::vector<double>> blocks(const sim::contents& c, const std::string& group)
{
    std::map<node, std::vector<double>> r;
    for (auto& x : c) if (x.first.compare(0, group.size() + 2, "/" + group + "/") == 0)
    {
        int l, i, j, n = 0; auto name = sim::leaf(x.first); CHECK(sscanf(name.c_str(), "%d:%d-%d%n", &l, &i, &j, &n) == 3 && n == int(name.size()), "a block is named ", x.first);
        node a; a.level = l; a.x = {std::size_t(i), std::size_t(j)}; CHECK(r.emplace(a, numbers(x.second)).second, "two blocks ", a);
    }
    return r;
}
static void amrsand(ctx& c)
{
    struct option { int depth, N; double dfi, tfinal; };
    std::vector<option> table;
    bool deep = c.thorough();
    for (int depth : {0, 1, 2, 3, 4, 5}) for (int N : {1, 2, 3, 4, 5, 6, 8}) if (depth < 4 || N < 4 || (deep && (depth < 5 || N < 6))) table.push_back({depth, N, 0, (deep ? 16 : 6) * 2.0 / (N + 1) / (1 << depth)});
    for (int depth : {1, 2, 3}) for (int N : {2, 3}) for (double dfi : {0.05, 0.1, 0.25, 0.4, 1.0}) for (double t : {0.0, 0.5, 1.3}) table.push_back({depth, N, dfi, t});
    if (deep) for (int depth : {3, 4}) for (double dfi : {0.2}) table.push_back({depth, 4, dfi, 1.0});
    for (auto o : table) c.each([&] (auto& s) { s << "amrsand depth=" << o.depth << " block_size=" << o.N << " dfi=" << o.dfi << " tfinal=" << o.tfinal; }, [&]
    {
        if (o.depth > 1) ++c.nontrivial;
        auto dir = sim::fresh("sand"); auto m = expected_mesh(o.depth);
        auto r = sim::run("amrsand", {vf::cat("depth=", o.depth), vf::cat("block_size=", o.N), vf::cat("dfi=", o.dfi), vf::cat("tfinal=", o.tfinal), "outdir=sand"}, dir);
        CHECK(r.ok(), r.what);
        auto all = runs::outputs(dir + "/sand");
        double dt = 2.0 / (o.N + 1) / (1 << m.depth());
        std::vector<double> times; field old; auto leaves = m.leaves();
        auto name = [] (int k) { char b[64]; snprintf(b, 64, "diagnostics.%04d.h5", k); return std::string(b); };
        for (int k = 0; all.count(name(k)); ++k)
        {
            auto& f = all.at(name(k)); CHECK(f.count("/time"), name(k), " has no time"); double t = numbers(f.at("/time")).at(0); times.push_back(t);
            field now; now.N = o.N; now.m = &m; now.v = blocks(f, "conserved"); auto verts = blocks(f, "vertices");
            CHECK(now.v.size() == leaves.size() && verts.size() == leaves.size(), "there are ", now.v.size(), " blocks instead of ", leaves.size());
            for (auto a : leaves)
            {
                CHECK(now.v.count(a) && verts.count(a), "block ", a, " is missing"); auto& u = now.v.at(a); auto& x = verts.at(a);
                CHECK(u.size() == std::size_t(o.N * o.N) && x.size() == std::size_t(2 * (o.N + 1) * (o.N + 1)), "block ", a, " has another size");
                double h = 2.0 / (1 << a.level) / o.N; auto px = [&] (double i) { return -1 + h * (a.x[0] * o.N + i); }; auto py = [&] (double j) { return -1 + h * (a.x[1] * o.N + j); };
                for (int i = 0; i <= o.N; ++i) for (int j = 0; j <= o.N; ++j) { double* p = &x[2 * (i * (o.N + 1) + j)]; CHECK(vf::close(p[0], px(i)) && vf::close(p[1], py(j)), "a vertex of block ", a, " is at ", p[0], ", ", p[1], " instead of ", px(i), ", ", py(j)); }
                for (int i = 0; i < o.N; ++i) for (int j = 0; j < o.N; ++j)
                {
                    double got = u[i * o.N + j]; CHECK(got >= -1e-14 && got <= 1 + 1e-14, "the pulse grows to ", got);
                    if (k == 0) { double q = px(i + 0.5), s = py(j + 0.5), want = std::exp(-(q * q + s * s) / 0.025); CHECK(std::fabs(got - want) <= 1e-10, "the initial value of a cell of ", a, " is ", got, " instead of ", want); }
                    else if (o.dfi == 0)
                    {
                        long I = a.x[0] * o.N + i, J = a.x[1] * o.N + j; double step = t - times[k - 1], was = old.cell(a.level, I, J), want = was - 0.5 * step / h * (2 * was - old.cell(a.level, I - 1, J) - old.cell(a.level, I, J - 1));
                        CHECK(std::fabs(got - want) <= 1e-10, "after step ", k, " cell ", i, ", ", j, " of block ", a, " is ", got, " instead of ", want);
                    }
                }
                c.state(vf::bits(u[0]) + a.level);
            }
            if (k > 0 && o.depth < 2) { double a = 0, b = 0; for (auto& x : now.v) for (double q : x.second) a += q; for (auto& x : old.v) for (double q : x.second) b += q; CHECK(vf::close(a, b, 1e-11), "the amount changes from ", b, " to ", a, " on a uniform mesh"); }
            old = now; ++c.transitions;
        }
        // the first is the initial state; one each step, or one each interval (and the steps may be one late)
        CHECK(! times.empty() && times[0] == 0, "there is no output of the initial state");
        CHECK(all.size() == times.size(), "there are ", all.size(), " files, but only ", times.size(), " are numbered in order");
        for (std::size_t k = 1; k < times.size(); ++k)
        {
            CHECK(times[k] > times[k - 1], "output ", k, " does not follow the one before");
            if (o.dfi == 0) CHECK(vf::close(times[k] - times[k - 1], dt, 1e-9), "the step is ", times[k] - times[k - 1], " instead of ", dt);
            else CHECK(times[k] >= k * o.dfi - 1e-9 && times[k] <= k * std::max(o.dfi, dt) + 2 * dt + 1e-9, "output ", k, " is at time ", times[k]);
        }
        if (o.dfi == 0) CHECK(times.back() >= o.tfinal - 1e-9 && times.back() <= o.tfinal + 2 * dt + 1e-9, "the run ends at ", times.back());
        else CHECK(times.back() + std::max(o.dfi, dt) + 2 * dt + 1e-9 >= o.tfinal, "the outputs end at ", times.back());
        sim::wipe(dir);
    });
}

// ------------------------------------------------------------------ partdom
using vec3 = std::array<double, 3>;
static std::vector<double> numbers_in(const std::string& s)
{
    std::vector<double> r; const char* p = s.c_str();
    while (*p) { char* e; double x = strtod(p, &e); if (e != p) { r.push_back(x); p = e; } else ++p; }
    return r;
}
static void partdom(ctx& c)
{
    bool deep = c.thorough();
    for (int N = 1; N <= (deep ? 6 : 5); ++N) for (int P = 1; P <= (deep ? 30 : 16); ++P) c.each([&] (auto& o) { o << "partdom N=" << N << " procs=" << P; }, [&]
    {
        if (P > 1) ++c.nontrivial;
        auto dir = sim::fresh("part"); auto r = sim::run("partdom", {vf::cat("N=", N), vf::cat("procs=", P)}, dir); ++c.transitions;
        CHECK(! r.signalled && ! r.hung && r.code != 86, r.what);
        // more blocks along an axis than there are cells: refused. The most even split of P into three factors decides.
        if (r.code == 97) { bool possible = true; int a = int(std::cbrt(double(P)) + 1e-9); if (a * a * a == P && a <= N) possible = true; else possible = false; CHECK(! possible && P > N, "a division of ", N, "^3 cells in ", P, " blocks is refused"); CHECK(sim::entries(dir).empty(), "files are written"); return; }
        CHECK(r.code == 0, r.what);
        struct block { std::array<int, 3> at, lo, hi; std::vector<vec3> verts, cells; }; std::map<std::array<int, 3>, block> all;
        std::istringstream in(r.out); std::string line; block* now = nullptr; bool cells = false;
        while (std::getline(in, line))
        {
            if (says(line, "...") && line[0] == '[') { auto n = numbers_in(line); CHECK(n.size() >= 9, "a block is described by ", line); block b; for (int a = 0; a < 3; ++a) { b.at[a] = n[a]; b.lo[a] = n[3 + a]; b.hi[a] = n[6 + a]; } CHECK(all.emplace(b.at, b).second, "block twice: ", line); }
            else if (says(line, "<==")) { auto n = numbers_in(line); CHECK(n.size() >= 3, line); std::array<int, 3> at = {int(n[n.size() - 3]), int(n[n.size() - 2]), int(n[n.size() - 1])}; CHECK(all.count(at), "an unknown block: ", line); now = &all[at]; cells = says(line, "cell"); }
            else if (now && line.size() > 2 && line[0] == '(') { std::istringstream w(line); std::string t; vec3 x; int k = 0; while (w >> t) if (says(t, ".") && k < 3) x[k++] = atof(t.c_str()); CHECK(k == 3, "a point is given as ", line); (cells ? now->cells : now->verts).push_back(x); }
        }
        CHECK(int(all.size()) == P, "there are ", all.size(), " blocks instead of ", P);
        std::array<int, 3> count = {0, 0, 0}; for (auto& b : all) for (int a = 0; a < 3; ++a) count[a] = std::max(count[a], b.first[a] + 1);
        CHECK(count[0] * count[1] * count[2] == P, "the blocks are not an array");
        std::vector<int> owner(N * N * N, 0);
        for (auto& x : all)
        {
            auto& b = x.second; std::vector<vec3> verts, centres;
            for (int a = 0; a < 3; ++a) { CHECK(b.lo[a] >= 0 && b.hi[a] > b.lo[a] && b.hi[a] <= N, "a block is empty or reaches outside"); int n = b.hi[a] - b.lo[a]; CHECK(n == N / count[a] || n == (N + count[a] - 1) / count[a], "uneven blocks: ", n, " of ", N, " cells in ", count[a], " blocks");
                if (b.at[a] > 0) { auto o = b.at; --o[a]; CHECK(all.at(o).hi[a] == b.lo[a], "blocks are not in order"); } }
            for (int i = b.lo[0]; i <= b.hi[0]; ++i) for (int j = b.lo[1]; j <= b.hi[1]; ++j) for (int k = b.lo[2]; k <= b.hi[2]; ++k)
            {
                verts.push_back({double(i), double(j), double(k)});
                if (i < b.hi[0] && j < b.hi[1] && k < b.hi[2]) { centres.push_back({i + 0.5, j + 0.5, k + 0.5}); ++owner[(i * N + j) * N + k]; }
            }
            CHECK(b.verts == verts, "the vertices of a block are not those of its cells"); CHECK(b.cells == centres, "the cell centres of a block are not those of its cells");
            c.state(vf::hash(vf::cat(N, P, b.lo[0], b.lo[1], b.lo[2])));
        }
        for (int q : owner) CHECK(q == 1, "a cell belongs to ", q, " blocks");
        sim::contents f; CHECK(sim::entries(dir) == strings{"test.h5"} && sim::dump(dir + "/test.h5", f) && f.count("/data"), "there is no data file");
        auto data = numbers(f.at("/data")); CHECK((f.at("/data").dims == std::vector<hsize_t>{hsize_t(N), hsize_t(N), hsize_t(N)}), "the data has another shape");
        auto& b = all.at({0, 0, 0});
        for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int k = 0; k < N; ++k) { bool in = i < b.hi[0] && j < b.hi[1] && k < b.hi[2]; double want = in ? i + 0.5 : 0; CHECK(data[(i * N + j) * N + k] == want, "the data at ", i, " ", j, " ", k, " is ", data[(i * N + j) * N + k], " instead of ", want); }
        sim::wipe(dir);
    });
}
int main(int argc, char** argv)
{
    if (sim::is_child(argc, argv)) return child(argc, argv);
    return vf::main(argc, argv, {{"selection", selection}, {"amrsand", amrsand}, {"partdom", partdom}});
}
