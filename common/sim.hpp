// Runs the real subprograms in child processes, inside a scratch directory, and
// reads their output files back independently of the code under test.
#pragma once
#include "vf.hpp"
#include <dirent.h>
#include <hdf5.h>
#include <memory>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include "app_subprogram.hpp"
#include "fault.hpp"

std::unique_ptr<mara::sub_program_t> make_subprog_boilerlate();
std::unique_ptr<mara::sub_program_t> make_subprog_sedov();
std::unique_ptr<mara::sub_program_t> make_subprog_cloud();
std::unique_ptr<mara::sub_program_t> make_subprog_binary();

namespace sim
{
using strings = std::vector<std::string>;

// ------------------------------------------------------------------- files
inline bool exists(const std::string& p) { struct stat s; return lstat(p.c_str(), &s) == 0; }
inline strings entries(const std::string& dir)
{
    strings r; if (DIR* d = opendir(dir.c_str())) { while (auto e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") r.push_back(n); } closedir(d); }
    std::sort(r.begin(), r.end()); return r;
}
inline std::string slurp(const std::string& p)
{
    std::string r; int f = open(p.c_str(), O_RDONLY); if (f < 0) return r;
    char b[65536]; long n; while ((n = read(f, b, sizeof b)) > 0) r.append(b, n);
    ::close(f); return r;
}
inline void spill(const std::string& p, const std::string& s)
{
    int f = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (f < 0 || write(f, s.data(), s.size()) != long(s.size())) vf::fail("cannot write " + p);
    ::close(f);
}
inline void wipe(const std::string& dir)
{
    if (dir.compare(0, vf::scratch().size(), vf::scratch()) || dir.size() <= vf::scratch().size()) { fprintf(stderr, "wipe %s\n", dir.c_str()); _exit(3); }
    for (auto& n : entries(dir)) { auto p = dir + "/" + n; struct stat s; if (! lstat(p.c_str(), &s) && S_ISDIR(s.st_mode)) wipe(p); else unlink(p.c_str()); }
    rmdir(dir.c_str());
}
inline std::string fresh(const std::string& name) { auto d = vf::scratch() + "/" + name; if (exists(d)) wipe(d); mkdir(d.c_str(), 0755); return d; }
inline void copy_tree(const std::string& a, const std::string& b)
{
    mkdir(b.c_str(), 0755);
    for (auto& n : entries(a)) { struct stat s; auto p = a + "/" + n; if (! lstat(p.c_str(), &s) && S_ISDIR(s.st_mode)) copy_tree(p, b + "/" + n); else spill(b + "/" + n, slurp(p)); }
}

// ---------------------------------------------------------- contents of HDF5
// every object of a file: path -> type, extent, bytes
struct object { std::string type; std::vector<hsize_t> dims; std::string bytes; bool operator==(const object& o) const { return type == o.type && dims == o.dims && bytes == o.bytes; } };
using contents = std::map<std::string, object>;
namespace detail
{
inline std::string type_name(hid_t t)
{
    auto c = H5Tget_class(t); auto n = std::to_string(H5Tget_size(t));
    switch (c)
    {
        case H5T_INTEGER: return "int" + n;
        case H5T_FLOAT: return "float" + n;
        case H5T_STRING: return "string" + n;
        case H5T_ARRAY: { hid_t b = H5Tget_super(t); auto r = type_name(b) + "[" + n + "]"; H5Tclose(b); return r; }
        case H5T_COMPOUND: { std::string r = "{"; int k = H5Tget_nmembers(t); for (int i = 0; i < k; ++i) { char* m = H5Tget_member_name(t, i); hid_t mt = H5Tget_member_type(t, i); r += std::string(m) + ":" + type_name(mt) + " "; H5free_memory(m); H5Tclose(mt); } return r + "}"; }
        default: return "class" + std::to_string(c) + "/" + n;
    }
}
inline bool walk(hid_t g, const std::string& path, contents& out);
inline herr_t visit(hid_t g, const char* name, const H5L_info_t*, void* p)
{
    auto& a = *(std::pair<std::string, contents*>*) p;
    auto path = a.first + "/" + name;
    hid_t o = H5Oopen(g, name, H5P_DEFAULT);
    if (o < 0) return -1;
    bool ok = false;
    if (H5Iget_type(o) == H5I_GROUP) { (*a.second)[path] = {"group", {}, ""}; ok = walk(o, path, *a.second); }
    else if (H5Iget_type(o) == H5I_DATASET)
    {
        hid_t t = H5Dget_type(o), s = H5Dget_space(o), n = H5Tget_native_type(t, H5T_DIR_DEFAULT);
        object x; x.type = type_name(t);
        int rank = H5Sget_simple_extent_ndims(s);
        if (rank > 0) { x.dims.resize(rank); H5Sget_simple_extent_dims(s, x.dims.data(), nullptr); }
        auto count = H5Sget_simple_extent_npoints(s);
        x.bytes.assign(count * H5Tget_size(n), '\0');
        ok = count == 0 || H5Dread(o, n, H5S_ALL, H5S_ALL, H5P_DEFAULT, &x.bytes[0]) >= 0;
        (*a.second)[path] = x;
        H5Tclose(t); H5Tclose(n); H5Sclose(s);
    }
    H5Oclose(o);
    return ok ? 0 : -1;
}
inline bool walk(hid_t g, const std::string& path, contents& out)
{
    std::pair<std::string, contents*> a{path, &out};
    return H5Literate(g, H5_INDEX_NAME, H5_ITER_INC, nullptr, visit, &a) >= 0;
}
}
inline bool dump(const std::string& file, contents& out)
{
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) return false;
    bool ok = detail::walk(f, "", out);
    H5Fclose(f);
    return ok;
}
inline std::string leaf(const std::string& p) { return p.substr(p.rfind('/') + 1); }
// the first difference, "" if none; objects named in `ignore` may differ
inline std::string difference(const contents& a, const contents& b, const std::set<std::string>& ignore={})
{
    for (auto& x : a) { auto i = b.find(x.first); if (ignore.count(leaf(x.first))) continue; if (i == b.end()) return x.first + " is missing"; if (! (i->second == x.second)) return x.first + " differs" + (i->second.dims != x.second.dims ? " in its extent" : i->second.type != x.second.type ? " in its type" : " in its values"); }
    for (auto& x : b) if (! a.count(x.first) && ! ignore.count(leaf(x.first))) return x.first + " is new";
    return "";
}
inline uint64_t digest(const contents& c, const std::set<std::string>& ignore={})
{
    uint64_t h = 7; for (auto& x : c) if (! ignore.count(leaf(x.first))) { h = vf::mix(h, vf::hash(x.first + "|" + x.second.type)); for (auto d : x.second.dims) h = vf::mix(h, d); h = vf::mix(h, vf::hash(x.second.bytes)); }
    return h;
}

// --------------------------------------------------------------------- runs
inline std::unique_ptr<mara::sub_program_t> make(const std::string& p)
{
    if (p == "binary") return make_subprog_binary();
    if (p == "cloud") return make_subprog_cloud();
    if (p == "sedov") return make_subprog_sedov();
    return make_subprog_boilerlate();
}
struct result { int code = 0; bool signalled = false, hung = false; std::string what, out; bool ok() const { return code == 0 && ! signalled && ! hung; } };

// the child's side: `<harness> --sim program args...`, with a fault plan in the environment
inline bool is_child(int argc, char** argv) { return argc > 2 && ! strcmp(argv[1], "--sim"); }
inline int child(int argc, char** argv)
{
    fault::arm_from_environment();
    std::vector<const char*> a(argv + 2, argv + argc); a.push_back(nullptr);
    int code = 99;
    try { code = make(argv[2])->main(argc - 2, a.data()); }
    catch (const std::exception& e) { printf("\nEXCEPTION %s\n", e.what()); fflush(stdout); _exit(97); }   // as an exception that main lets through: nothing more is closed
    catch (...) { printf("\nEXCEPTION\n"); fflush(stdout); _exit(97); }
    fflush(stdout);
    return code;   // from main: closes what is still open, as the program would
}

// runs `mara program args...` with the given working directory
inline result run(const std::string& program, const strings& args, const std::string& cwd, const fault::plan& plan={}, int limit=120)
{
    fflush(stdout); fflush(stderr);
    auto log = cwd + "/.log";
    static const std::string self = [] { char b[4096]; long n = readlink("/proc/self/exe", b, sizeof b - 1); return std::string(b, std::max(n, 0l)); }();
    std::vector<char*> argv; strings all = {self, "--sim", program}; for (auto& a : args) all.push_back(a);
    for (auto& a : all) argv.push_back(&a[0]);
    argv.push_back(nullptr);
    auto env = plan.text();
    pid_t pid = fork();
    if (pid < 0) vf::fail("fork");
    if (pid == 0)
    {
        setenv("VF_FAULT", env.c_str(), 1);
        if (chdir(cwd.c_str())) _exit(98);
        int f = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(f, 1); dup2(f, 2); ::close(f);
        execv(argv[0], argv.data());
        _exit(98);
    }
    result r; int st = 0; double t0 = time(nullptr);
    while (true)
    {
        pid_t k = waitpid(pid, &st, WNOHANG);
        if (k == pid) break;
        if (time(nullptr) - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.hung = true; break; }
        timespec ts{0, 300000}; nanosleep(&ts, nullptr);
    }
    if (WIFSIGNALED(st)) { r.signalled = true; r.code = 128 + WTERMSIG(st); } else r.code = WEXITSTATUS(st);
    auto text = slurp(log); unlink(log.c_str());
    auto e = text.find("EXCEPTION"); auto s = text.find("ERROR: AddressSanitizer"); if (s == std::string::npos) s = text.find("runtime error:");
    r.what = vf::cat("exit ", r.code, r.hung ? " (does not end)" : "", " ", s != std::string::npos ? text.substr(s, 300) : e != std::string::npos ? text.substr(e, 300) : "");
    if (s != std::string::npos) r.code = 86;
    r.out = text;
    return r;
}
}
