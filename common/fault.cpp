#include "fault.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <mutex>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace
{
fault::mode how = fault::off;
long at = -1, number = 0;
int error_code = ENOSPC, log_fd = -1;
const int MAXFD = 4096;
char* name_of[MAXFD];
std::recursive_mutex m;

long raw_write(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, n); }
void note(const char* what, const char* path, long n, long len)
{
    char b[600]; int k = snprintf(b, sizeof b, "%ld %s %s %ld\n", n, what, path, len);
    if (log_fd >= 0) raw_write(log_fd, b, std::min<long>(k, sizeof b));
}
bool ours(const char* p) { return p && strncmp(p, "/proc", 5) && strncmp(p, "/dev", 4) && strncmp(p, "/sys", 4) && strncmp(p, "/usr", 4) && strncmp(p, "/lib", 4) && strncmp(p, "/etc", 4) && ! strstr(p, ".log"); }
const char* tracked(int fd) { return how != fault::off && fd >= 0 && fd < MAXFD ? name_of[fd] : nullptr; }

// 0 go ahead, -1 fail with errno, 1 torn
int step(const char* what, const char* path, long len)
{
    long n = number++;
    note(what, path, n, len);
    if (how == fault::kill_before && n == at) _exit(137);
    if (how == fault::kill_torn && n == at) { if (len < 2) _exit(137); return 1; }
    if ((how == fault::fail_once && n == at) || (how == fault::fail_from && n >= at)) { errno = error_code; return -1; }
    return 0;
}
template<typename F> long io(int fd, const char* what, long len, F&& f)
{
    auto p = tracked(fd);
    if (! p) return f(len);
    std::lock_guard<std::recursive_mutex> g(m);
    int s = step(what, p, len);
    if (s < 0) return -1;
    if (s > 0) { f(len / 2); _exit(137); }
    return f(len);
}
int opened(const char* path, int flags, int mode, int dir)
{
    if (how == fault::off || ! ours(path) || ! (flags & (O_WRONLY | O_RDWR))) return int(syscall(SYS_openat, dir, path, flags, mode));
    std::lock_guard<std::recursive_mutex> g(m);
    if (flags & (O_CREAT | O_TRUNC)) { if (step("create", path, 0) < 0) return -1; }
    int fd = int(syscall(SYS_openat, dir, path, flags, mode));
    if (fd >= 0 && fd < MAXFD) { free(name_of[fd]); name_of[fd] = strdup(path); note("opened", path, -1, fd); }
    return fd;
}
}

void fault::arm_from_environment()
{
    auto e = getenv("VF_FAULT"); int mo = 0, err = 0; long a = -1; char log[1024] = "";
    if (! e || sscanf(e, "%d %ld %d %1023s", &mo, &a, &err, log) < 3) return;
    log_fd = log[0] ? int(syscall(SYS_openat, AT_FDCWD, log, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND | O_CLOEXEC, 0644)) : -1;
    how = mode(mo); at = a; number = 0; error_code = err;
}

#define OPEN_BODY int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, flags); mode = va_arg(v, int); va_end(v); }
extern "C" {
int open(const char* p, int flags, ...) { OPEN_BODY return opened(p, flags, mode, AT_FDCWD); }
int open64(const char* p, int flags, ...) { OPEN_BODY return opened(p, flags, mode, AT_FDCWD); }
int openat(int d, const char* p, int flags, ...) { OPEN_BODY return opened(p, flags, mode, d); }
int openat64(int d, const char* p, int flags, ...) { OPEN_BODY return opened(p, flags, mode, d); }
int creat(const char* p, mode_t mode) { return opened(p, O_CREAT | O_WRONLY | O_TRUNC, mode, AT_FDCWD); }
ssize_t write(int fd, const void* b, size_t n) { return io(fd, "write", n, [&] (long k) { return syscall(SYS_write, fd, b, k); }); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return io(fd, "pwrite", n, [&] (long k) { return syscall(SYS_pwrite64, fd, b, k, o); }); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return io(fd, "pwrite", n, [&] (long k) { return syscall(SYS_pwrite64, fd, b, k, o); }); }
ssize_t writev(int fd, const iovec* v, int n) { return io(fd, "writev", 1, [&] (long) { return syscall(SYS_writev, fd, v, n); }); }
int ftruncate(int fd, off_t n) noexcept { return int(io(fd, "ftruncate", 0, [&] (long) { return syscall(SYS_ftruncate, fd, n); })); }
int ftruncate64(int fd, off64_t n) noexcept { return int(io(fd, "ftruncate", 0, [&] (long) { return syscall(SYS_ftruncate, fd, n); })); }
int fsync(int fd) { return int(io(fd, "fsync", 0, [&] (long) { return syscall(SYS_fsync, fd); })); }
int fdatasync(int fd) { return int(io(fd, "fsync", 0, [&] (long) { return syscall(SYS_fdatasync, fd); })); }
int close(int fd)
{
    if (auto p = tracked(fd))
    {
        std::lock_guard<std::recursive_mutex> g(m);
        int s = step("close", p, 0);
        int e = errno;
        note("closed", p, -1, s);
        free(name_of[fd]); name_of[fd] = nullptr;
        long r = syscall(SYS_close, fd);
        if (s < 0) { errno = e; return -1; }
        return int(r);
    }
    return int(syscall(SYS_close, fd));
}
int mkdir(const char* p, mode_t mo) noexcept { if (how != fault::off && ours(p) && step("mkdir", p, 0) < 0) return -1; return int(syscall(SYS_mkdir, p, mo)); }
int unlink(const char* p) noexcept { if (how != fault::off && ours(p) && step("unlink", p, 0) < 0) return -1; return int(syscall(SYS_unlink, p)); }
int rename(const char* a, const char* b) noexcept { if (how != fault::off && ours(a)) { if (step("rename", a, 0) < 0) return -1; note("renamed", b, -1, 0); } return int(syscall(SYS_rename, a, b)); }
}
