// C15: the file-system helpers against snapshots of a scratch tree.
//
// Every call that changes the file system is replaced by a stand-in that only
// goes through when its target lies inside of our scratch directory.
#include <stdexcept>
#include "vf.hpp"
#include <cstdarg>
#include <cerrno>
#include <dirent.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include "app_filesystem.hpp"

namespace guard
{
bool on = false;
std::string root;              // real path of the scratch directory
std::string escaped;           // a call that tried to leave it
long calls = 0, fail_at = -1;  // inject a failure at this call
bool failed = false;

std::string real_parent(int dirfd, const char* path)
{
    std::string p = path;
    while (p.size() > 1 && p.back() == '/') p.pop_back();
    auto s = p.rfind('/');
    std::string dir = s == std::string::npos ? "." : s == 0 ? "/" : p.substr(0, s);
    if (dir[0] != '/' && dirfd != AT_FDCWD) dir = "/proc/self/fd/" + std::to_string(dirfd) + "/" + dir;
    char b[PATH_MAX];
    return realpath(dir.c_str(), b) ? b : "";
}
bool inside(const std::string& r) { return r == root || r.compare(0, root.size() + 1, root + "/") == 0; }

// 0: go ahead
int ask(int dirfd, const char* path, const char* what)
{
    if (! on) return 0;
    struct stat st;
    if (what[0] == 'm' && fstatat(dirfd, path, &st, AT_SYMLINK_NOFOLLOW) == 0) { errno = EEXIST; return -1; }   // a directory that is there already
    auto p = real_parent(dirfd, path);
    if (! p.empty() && ! inside(p)) { escaped = std::string(what) + " " + path; errno = EPERM; return -1; }
    if (calls++ == fail_at) { failed = true; errno = EACCES; return -1; }
    return 0;
}
}

extern "C" {
int unlink(const char* p) noexcept { return guard::ask(AT_FDCWD, p, "unlink") ? -1 : int(syscall(SYS_unlink, p)); }
int rmdir(const char* p) noexcept { return guard::ask(AT_FDCWD, p, "rmdir") ? -1 : int(syscall(SYS_rmdir, p)); }
int unlinkat(int d, const char* p, int f) noexcept { return guard::ask(d, p, "unlinkat") ? -1 : int(syscall(SYS_unlinkat, d, p, f)); }
int mkdir(const char* p, mode_t m) noexcept { return guard::ask(AT_FDCWD, p, "mkdir") ? -1 : int(syscall(SYS_mkdir, p, m)); }
int mkdirat(int d, const char* p, mode_t m) noexcept { return guard::ask(d, p, "mkdirat") ? -1 : int(syscall(SYS_mkdirat, d, p, m)); }
int rename(const char* a, const char* b) noexcept { return guard::ask(AT_FDCWD, a, "rename") || guard::ask(AT_FDCWD, b, "rename") ? -1 : int(syscall(SYS_rename, a, b)); }
int remove(const char* p) noexcept
{
    if (guard::ask(AT_FDCWD, p, "remove")) return -1;
    int r = int(syscall(SYS_unlink, p));
    return r && errno == EISDIR ? int(syscall(SYS_rmdir, p)) : r;
}
}

namespace {
namespace fs = mara::filesystem;
using snap = std::map<std::string, std::string>;

void walk(const std::string& dir, const std::string& rel, snap& s)
{
    DIR* d = opendir(dir.c_str());
    if (! d) return;
    while (auto e = readdir(d))
    {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        struct stat st; auto p = dir + "/" + n, r = rel + "/" + n;
        if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) { s[r] = "dir"; walk(p, r, s); }
        else if (S_ISLNK(st.st_mode)) { char b[PATH_MAX]; auto k = readlink(p.c_str(), b, PATH_MAX); std::string t(b, std::max<long>(k, 0)); s[r] = "link " + (t.compare(0, guard::root.size(), guard::root) ? t : "<root>" + t.substr(guard::root.size())); }
        else if (S_ISREG(st.st_mode)) { char b[64]; int f = open(p.c_str(), O_RDONLY); auto k = read(f, b, 64); ::close(f); s[r] = "file " + std::string(b, std::max<long>(k, 0)); }
        else s[r] = S_ISFIFO(st.st_mode) ? "fifo" : S_ISSOCK(st.st_mode) ? "socket" : "other";
    }
    closedir(d);
}
snap look() { snap s; walk(guard::root, "", s); return s; }
std::string show(const snap& s) { std::string r; for (auto& p : s) r += p.first + "=" + p.second + " "; return r; }
std::string diff(const snap& a, const snap& b)
{
    std::string r;
    for (auto& p : a) { auto i = b.find(p.first); if (i == b.end()) r += "-" + p.first + " "; else if (i->second != p.second) r += "!" + p.first + " "; }
    for (auto& p : b) if (! a.count(p.first)) r += "+" + p.first + " ";
    return r;
}
void wipe(const std::string& dir)
{
    if (! guard::inside(dir)) _exit(3);
    DIR* d = opendir(dir.c_str()); if (! d) return;
    std::vector<std::string> names; while (auto e = readdir(d)) names.push_back(e->d_name);
    closedir(d);
    for (auto& n : names) if (n != "." && n != "..")
    {
        struct stat st; auto p = dir + "/" + n;
        if (! lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) { wipe(p); syscall(SYS_rmdir, p.c_str()); } else syscall(SYS_unlink, p.c_str());
    }
}

// ---------------------------------------------------------------- contents
enum kind { none, file, dir, to_dir, to_file, dangling, fifo, sock, to_up, KINDS };
const char* kname[] = {"none", "file", "dir", "link to a directory outside", "link to a file outside", "dangling link", "fifo", "socket", "link to its own parent"};
struct layout { kind a, b, c, d; bool hidden; };
std::ostream& operator<<(std::ostream& o, const layout& l) { return o << "{a: " << kname[l.a] << ", a/b: " << kname[l.b] << ", a/b/c: " << kname[l.c] << ", d: " << kname[l.d] << (l.hidden ? ", hidden" : "") << "}"; }

void put(const std::string& p, kind k)
{
    switch (k)
    {
        case file: { int f = open(p.c_str(), O_CREAT | O_WRONLY, 0600); if (write(f, p.data() + p.size() - 1, 1) != 1) _exit(3); ::close(f); break; }
        case dir: syscall(SYS_mkdir, p.c_str(), 0755); break;
        case to_dir: if (symlink((guard::root + "/out").c_str(), p.c_str())) _exit(3); break;
        case to_file: if (symlink((guard::root + "/out/f").c_str(), p.c_str())) _exit(3); break;
        case dangling: if (symlink("nowhere", p.c_str())) _exit(3); break;
        case to_up: if (symlink(".", p.c_str())) _exit(3); break;
        case fifo: if (mkfifo(p.c_str(), 0600)) _exit(3); break;
        case sock:
        {
            int s = socket(AF_UNIX, SOCK_STREAM, 0); sockaddr_un a{}; a.sun_family = AF_UNIX; strncpy(a.sun_path, p.c_str(), sizeof a.sun_path - 1);
            if (p.size() >= sizeof a.sun_path || bind(s, (sockaddr*) &a, sizeof a)) put(p, fifo);
            ::close(s); break;
        }
        default: break;
    }
}
void build(const layout& l)
{
    if (chdir(guard::root.c_str())) _exit(3);
    wipe(guard::root);
    put("out", dir); put("out/f", file); put("out/g", dir); put("out/g/f", file);
    put("w", dir);
    if (chdir("w")) _exit(3);
    put("a", l.a); if (l.a == dir) { put("a/b", l.b); if (l.hidden) { put("a/.h", file); put("a/.k", dir); put("a/.k/x", file); } if (l.b == dir) put("a/b/c", l.c); }
    put("d", l.d);
}
std::vector<layout> layouts(bool deep)
{
    std::vector<layout> r;
    std::vector<kind> A = {none, file, to_dir, to_file, dangling, fifo}, B = {none, file, to_dir, to_file, dangling, fifo, sock, to_up}, C = {none, file, dir, to_dir, to_file, to_up}, D = deep ? std::vector<kind>{none, file, dir} : std::vector<kind>{none, dir};
    for (auto d : D) for (auto a : A) r.push_back({a, none, none, d, false});
    for (bool h : {false, true}) for (auto d : D)
    {
        for (auto b : B) r.push_back({dir, b, none, d, h});
        for (auto c : C) r.push_back({dir, dir, c, d, h});
    }
    return r;
}

// -------------------------------------------------------------- operations
std::vector<std::string> paths()
{
    std::vector<std::string> r = {"a", "a/b", "a/b/c", "d", "a/n", "a/b/n/m", "n", "n/m", "./a/b", "a//b", "a/b/.q", "d/."};
    return r;
}
std::string full(const std::string& p, int absolute) { return absolute ? guard::root + "/w/" + p : p; }
struct op_t { int kind; std::string path; int absolute; };
std::string show(const op_t& o) { static const char* n[] = {"require_dir", "remove_file", "remove_recurse"}; return std::string(n[o.kind]) + "(" + (o.absolute ? "<abs>/" : "") + o.path + ")"; }
std::vector<op_t> ops(bool deep)
{
    std::vector<op_t> r;
    for (auto& p : paths())
    {
        r.push_back({0, p, 0}); r.push_back({0, p, 1});
        if (p == "d/.") continue;   // "." itself cannot be removed
        for (int k : {1, 2}) { r.push_back({k, p, 0}); if (deep || p == "a/b" || p == "a") r.push_back({k, p, 1}); }
    }
    r.push_back({0, "d/", 0}); r.push_back({0, "a/n/", 1}); r.push_back({2, "d/", 0});
    return r;
}
// kinds as the system reports them
bool sys_dir(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
bool sys_file(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISREG(s.st_mode); }
bool sys_exists(const std::string& p) { struct stat s; return lstat(p.c_str(), &s) == 0; }
bool sys_ldir(const std::string& p) { struct stat s; return lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
// where an existing entry lies, from the root of the snapshot; the last component is not followed
std::string place(std::string p)
{
    while (p.size() > 1 && p.back() == '/') p.pop_back();
    auto par = guard::real_parent(AT_FDCWD, p.c_str());
    auto s = p.rfind('/');
    return (par + "/" + (s == std::string::npos ? p : p.substr(s + 1))).substr(guard::root.size());
}
bool below(const std::string& p, const std::string& top) { return p == top || p.compare(0, top.size() + 1, top + "/") == 0; }

struct expect { bool ok; snap after; };
expect predict(const op_t& o, const snap& before)
{
    expect e{true, before};
    auto p = full(o.path, o.absolute);
    if (o.kind == 0)
    {
        // the longest prefix that is there; then new directories
        std::string prefix = o.absolute ? "/" : ""; std::string at; bool created = false;
        std::istringstream in(p); std::string part;
        while (std::getline(in, part, '/'))
        {
            if (part.empty() || part == ".") continue;
            prefix += (prefix.empty() || prefix.back() == '/' ? "" : "/") + part;
            if (created) { at += "/" + part; e.after[at] = "dir"; }
            else if (sys_dir(prefix)) continue;
            else if (sys_exists(prefix)) { e.ok = false; return e; }
            else { created = true; at = place(prefix); e.after[at] = "dir"; }
        }
        return e;
    }
    if (! sys_exists(p)) { e.ok = false; return e; }
    auto at = place(p);
    long count = 0; for (auto& q : before) count += below(q.first, at);
    if (o.kind == 1 && sys_ldir(p) && count > 1) { e.ok = false; return e; }
    if (o.kind == 2 && ! sys_ldir(p)) { e.ok = false; return e; }
    for (auto& q : before) if (below(q.first, at)) e.after.erase(q.first);
    return e;
}
// true when it reports success
bool perform(const op_t& o)
{
    auto p = full(o.path, o.absolute);
    if (o.kind == 0) { try { fs::require_dir(p); return true; } catch (const std::exception&) { return false; } }
    return (o.kind == 1 ? fs::remove_file(p) : fs::remove_recurse(p)) == 0;
}
void queries(const snap& s)
{
    for (auto& q : paths()) for (int absolute : {0, 1})
    {
        auto p = full(q, absolute);
        CHECK(fs::isdir(p) == sys_dir(p), "isdir(", q, ") with ", show(s));
        CHECK(fs::isfile(p) == sys_file(p), "isfile(", q, ") with ", show(s));
        if (absolute && q.size() > 1) continue;
        std::multiset<std::string> want, got; bool refused = false;
        if (sys_dir(p))
        {
            char b[PATH_MAX]; if (! realpath(p.c_str(), b)) vf::fail("realpath");
            std::string top = std::string(b).substr(guard::root.size());
            for (auto& e : s) if (e.first.size() > top.size() + 1 && e.first.compare(0, top.size() + 1, top + "/") == 0)
            {
                auto n = e.first.substr(top.size() + 1);
                if (n.find('/') == std::string::npos && n[0] != '.') want.insert(n);
            }
        }
        try { for (auto& n : fs::listdir(p)) got.insert(n); } catch (const std::exception&) { refused = true; }
        CHECK(refused == ! sys_dir(p), "listdir(", q, ") ", refused ? "refused" : "did not refuse", " with ", show(s));
        CHECK(got == want, "listdir(", q, ") with ", show(s));
    }
}
struct guarded { guarded() { guard::on = true; guard::escaped.clear(); guard::calls = 0; guard::failed = false; } ~guarded() { guard::on = false; guard::fail_at = -1; } };
bool run(const op_t& o) { guarded g; return perform(o); }

void histories(vf::ctx& c)
{
    auto L = layouts(false); auto O = ops(false);
    int depth = c.pick(2, 3);
    for (auto& l : L) for (auto& o : O)
        c.each([&] (auto& s) { s << l << " " << show(o) << ", then every sequence of " << depth - 1; }, [&]
        {
            std::vector<const op_t*> seq = {&o};
            std::function<void()> go = [&]
            {
                // replay the whole sequence from the layout; the last operation is the one looked at
                build(l);
                auto fds = [] { int n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n; };
                for (std::size_t i = 0; i + 1 < seq.size(); ++i) run(*seq[i]);
                auto before = look();
                auto want = predict(*seq.back(), before);
                int nfd = fds();
                bool ok = run(*seq.back());
                auto after = look();
                std::string h; for (auto p : seq) h += show(*p) + " ";
                CHECK(guard::escaped.empty(), h, "tried to change something elsewhere: ", guard::escaped);
                CHECK(after == want.after, h, (want.ok ? "" : "(which must be refused) "), "changed ", diff(before, after), " instead of ", diff(before, want.after), " from ", show(before));
                CHECK(ok == want.ok, h, ok ? "claims success" : "reports an error", " with ", show(before));
                CHECK(fds() == nfd, h, "leaves a file descriptor open");
                c.step(); c.state(vf::hash(show(after)));
                if (seq.size() <= 2) { queries(after); CHECK(fds() == nfd, "after ", h, "a query leaves a file descriptor open"); }
                if (int(seq.size()) == depth || ! want.ok) return;
                for (auto& p : O) if (seq.size() < 2 || ! p.absolute) { seq.push_back(&p); go(); seq.pop_back(); }
            };
            go();
            c.interesting();
        });
}

// every call that changes the file system fails once
void faults(vf::ctx& c)
{
    auto L = layouts(true); auto O = ops(c.thorough());
    for (auto& l : L) for (auto& o : O)
        c.each([&] (auto& s) { s << l << " " << show(o) << " with each of its calls failing"; }, [&]
        {
            build(l);
            { guarded g; perform(o); } long total = guard::calls;
            for (long k = 0; k < total; ++k)
            {
                build(l);
                auto before = look();
                auto want = predict(o, before);
                bool ok; { guarded g; guard::fail_at = k; ok = perform(o); }
                auto after = look();
                c.step();
                if (! guard::failed) continue;
                CHECK(guard::escaped.empty(), "tried to change something elsewhere: ", guard::escaped);
                // nothing beyond what the whole operation may change
                for (auto& p : before) { auto i = after.find(p.first); if (i == after.end() || i->second != p.second) CHECK(! want.after.count(p.first), "failure of call ", k, " removed ", p.first); }
                for (auto& p : after) if (! before.count(p.first)) CHECK(want.after.count(p.first), "failure of call ", k, " created ", p.first);
                CHECK(ok == (after == want.after && want.ok), "failure of call ", k, ": ", ok ? "claims success" : "reports an error", " but changed ", diff(before, after), " of ", diff(before, want.after));
                c.interesting();
            }
        });
}

void names(vf::ctx& c)
{
    int n = c.pick(7, 9); const char al[] = {'a', '.', '/', 'b'};
    for (int len = 0; len <= n; ++len)
    {
        long total = 1; for (int k = 0; k < len; ++k) total *= 4;
        for (long lo = 0; lo < total; lo += 256)
            c.each([&] (auto& s) { s << "names of length " << len << " from number " << lo; }, [&]
            {
                for (long code = lo; code < std::min(total, lo + 256); ++code)
                {
                    std::string p; long x = code; for (int k = 0; k < len; ++k, x /= 4) p += al[x % 4];
                    std::vector<std::string> parts(1);
                    for (char ch : p) if (ch == '/') parts.emplace_back(); else parts.back() += ch;
                    CHECK(fs::split(p) == parts, "split(\"", p, "\")");
                    CHECK(fs::join(parts) == p, "join of the parts of \"", p, "\" is \"", fs::join(parts), "\"");
                    auto last = parts.back(); auto dot = last.rfind('.');
                    CHECK(fs::extension(p) == (dot == std::string::npos ? "" : last.substr(dot)), "extension(\"", p, "\") is \"", fs::extension(p), "\"");
                    auto s = p.rfind('/');
                    if (s != std::string::npos)
                    {
                        CHECK(fs::parent(p) == p.substr(0, s), "parent(\"", p, "\") is \"", fs::parent(p), "\"");
                        CHECK(fs::join(p.substr(0, s), p.substr(s + 1)) == p, "join of two parts of \"", p, "\"");
                    }
                    c.step(); c.interesting(parts.size() > 1);
                }
                c.state(vf::mix(len, lo));
            });
    }
}
}

int main(int argc, char** argv)
{
    auto s = vf::scratch() + "/fs";
    syscall(SYS_mkdir, s.c_str(), 0755);
    char b[PATH_MAX]; if (! realpath(s.c_str(), b)) return 3;
    guard::root = b;
    if (guard::root.size() < 8) return 3;
    umask(022);
    return vf::main(argc, argv, {{"histories", histories}, {"faults", faults}, {"names", names}});
}
