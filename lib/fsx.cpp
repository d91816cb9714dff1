#include "fsx.hpp"
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <map>
#include <set>
#include <stdlib.h>

namespace fsx {
std::vector<Call> trace;
static std::string root;
static bool on = false, hit = false, dead = false;
static int inside = 0;
static std::map<long, int> faults;
static long fromIdx = -1, muts = 0, dieAt = -1, tornBytes = -1;
static int fromMask = 0, fromAns = 0;
struct Fd { std::string path; bool wr; };
static std::map<int, Fd> fds;
static std::map<DIR *, std::string> dirs;

void begin(const std::string & r) { root = r; trace.clear(); faults.clear(); fromIdx = -1; muts = 0; dieAt = -1; tornBytes = -1; hit = dead = false; fds.clear(); dirs.clear(); on = true; }
void end() { on = false; dead = hit = false; }
void fault(long i, int a) { faults[i] = a; }
void failFrom(long i, int m, int a) { fromIdx = i; fromMask = m; fromAns = a; }
void dieAfter(long n, long t) { dieAt = n; tornBytes = t; if(n == 0 && t < 0) dead = true; }
bool faulted() { return hit; }

struct In { In() { ++inside; } ~In() { --inside; } };
static bool ours(const std::string & p) { return p.compare(0, root.size(), root) == 0 && (p.size() == root.size() || p[root.size()] == '/'); }
static std::string full(int dir, const char * p) {
    if(p && p[0] == '/') return p;
    if(dir != AT_FDCWD) { auto it = fds.find(dir); if(it != fds.end()) return it->second.path + "/" + (p ? p : ""); return ""; }
    char cwd[4096]; if(!getcwd(cwd, sizeof cwd)) return ""; return std::string(cwd) + "/" + (p ? p : "");
}
// answer of this call: 0 = execute it
static int note(const char * fn, const std::string & path, std::size_t size, bool mut, int kind) {
    const long i = trace.size();
    trace.push_back({fn, path.size() > root.size() ? path.substr(root.size() + 1) : "", size, mut, kind});
    auto it = faults.find(i);
    int a = it != faults.end() ? it->second : 0;
    if(!a && fromIdx >= 0 && i >= fromIdx && (fromMask >> kind & 1)) a = fromAns;
    if(a) hit = true;
    if(mut && dieAt >= 0) {
        if(muts >= dieAt) { const bool first = muts == dieAt; ++muts; if(first && tornBytes >= 0 && kind == WRITE && !dead) { dead = true; return -100; } dead = true; return EIO; }
        ++muts; 
    }
    return a;
}
template<class F> static F real(const char * n) { return (F) dlsym(RTLD_NEXT, n); }
#define ACTIVE (fsx::on && !fsx::inside)
}
using namespace fsx;
#define REAL(ret, name, ...) static auto r_##name = real<ret (*)(__VA_ARGS__)>(#name)
#define FAILI { errno = a; return -1; }

extern "C" {
int stat(const char * p, struct stat * s) { REAL(int, stat, const char *, struct stat *); if(ACTIVE) { In g; const auto f = full(AT_FDCWD, p); if(ours(f)) if(int a = note("stat", f, 0, false, PATH)) FAILI } return r_stat(p, s); }
int lstat(const char * p, struct stat * s) { REAL(int, lstat, const char *, struct stat *); if(ACTIVE) { In g; const auto f = full(AT_FDCWD, p); if(ours(f)) if(int a = note("lstat", f, 0, false, PATH)) FAILI } return r_lstat(p, s); }
int fstatat(int d, const char * p, struct stat * s, int fl) { REAL(int, fstatat, int, const char *, struct stat *, int); if(ACTIVE) { In g; const auto f = full(d, p); if(ours(f)) if(int a = note("fstatat", f, 0, false, PATH)) FAILI } return r_fstatat(d, p, s, fl); }
int statx(int d, const char * p, int fl, unsigned m, struct statx * s) { REAL(int, statx, int, const char *, int, unsigned, struct statx *); if(ACTIVE) { In g; const auto f = full(d, p); if(ours(f)) if(int a = note("statx", f, 0, false, PATH)) FAILI } return r_statx(d, p, fl, m, s); }
int access(const char * p, int m) { REAL(int, access, const char *, int); if(ACTIVE) { In g; const auto f = full(AT_FDCWD, p); if(ours(f)) if(int a = note("access", f, 0, false, PATH)) FAILI } return r_access(p, m); }
int fstat(int fd, struct stat * s) { REAL(int, fstat, int, struct stat *); if(ACTIVE && fds.count(fd)) { In g; if(int a = note("fstat", fds[fd].path, 0, false, OTHER)) FAILI } return r_fstat(fd, s); }

static int doOpen(int d, const char * p, int fl, int m) {
    REAL(int, openat, int, const char *, int, ...);
    if(!ACTIVE) return r_openat(d, p, fl, m);
    In g; const auto f = full(d, p); if(!ours(f)) return r_openat(d, p, fl, m);
    const bool wr = (fl & O_ACCMODE) != O_RDONLY;
    if(int a = note("open", f, 0, fl & (O_CREAT | O_TRUNC), fl & O_DIRECTORY ? OPENDIR : OPEN)) FAILI
    const int fd = r_openat(d, p, fl, m); if(fd >= 0) fds[fd] = {f, wr}; return fd;
}
int open(const char * p, int fl, ...) { va_list ap; va_start(ap, fl); const int m = va_arg(ap, int); va_end(ap); return doOpen(AT_FDCWD, p, fl, m); }
int open64(const char * p, int fl, ...) { va_list ap; va_start(ap, fl); const int m = va_arg(ap, int); va_end(ap); return doOpen(AT_FDCWD, p, fl, m); }
int openat(int d, const char * p, int fl, ...) { va_list ap; va_start(ap, fl); const int m = va_arg(ap, int); va_end(ap); return doOpen(d, p, fl, m); }
int openat64(int d, const char * p, int fl, ...) { va_list ap; va_start(ap, fl); const int m = va_arg(ap, int); va_end(ap); return doOpen(d, p, fl, m); }
int __openat_2(int d, const char * p, int fl) { return doOpen(d, p, fl, 0); }
int __open_2(const char * p, int fl) { return doOpen(AT_FDCWD, p, fl, 0); }
int creat(const char * p, mode_t m) { return doOpen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int mkstemp(char * t) {
    REAL(int, mkstemp, char *); if(!ACTIVE) return r_mkstemp(t);
    In g; const auto f = full(AT_FDCWD, t); if(!ours(f)) return r_mkstemp(t);
    if(int a = note("mkstemp", f, 0, true, OPEN)) FAILI
    const int fd = r_mkstemp(t); if(fd >= 0) fds[fd] = {full(AT_FDCWD, t), true}; return fd;
}
FILE * fopen(const char * p, const char * m) {
    REAL(FILE *, fopen, const char *, const char *);
    if(!ACTIVE) return r_fopen(p, m);
    In g; const auto f = full(AT_FDCWD, p); if(!ours(f)) return r_fopen(p, m);
    const bool wr = m[0] != 'r' || strchr(m, '+');
    if(int a = note("fopen", f, 0, m[0] != 'r', OPEN)) { errno = a; return nullptr; }
    FILE * h = r_fopen(p, m); if(h) { fds[fileno(h)] = {f, wr}; if(wr) setvbuf(h, nullptr, _IONBF, 0); } return h;
}
FILE * fopen64(const char * p, const char * m) { return fopen(p, m); }
FILE * fdopen(int fd, const char * m) { REAL(FILE *, fdopen, int, const char *); FILE * h = r_fdopen(fd, m); if(h && ACTIVE && fds.count(fd) && fds[fd].wr) setvbuf(h, nullptr, _IONBF, 0); return h; }
int fclose(FILE * h) {
    REAL(int, fclose, FILE *);
    if(!ACTIVE) return r_fclose(h);
    In g; const int fd = fileno(h); auto it = fds.find(fd); if(it == fds.end()) return r_fclose(h);
    const Fd f = it->second; fds.erase(it);
    int a = 0; if(f.wr) a = note("fclose", f.path, 0, false, CLOSEW);
    const int r = r_fclose(h); if(a > 0) { errno = a; return EOF; } return r;
}
int close(int fd) {
    REAL(int, close, int);
    if(!ACTIVE) return r_close(fd);
    In g; auto it = fds.find(fd); if(it == fds.end()) return r_close(fd);
    const Fd f = it->second; fds.erase(it);
    int a = 0; if(f.wr) a = note("close", f.path, 0, false, CLOSEW);
    const int r = r_close(fd); if(a > 0) FAILI return r;
}
#define DOREAD(fn, call, n) { In g; if(int a = note(fn, fds[fd].path, n, false, READ)) { if(a == END) return 0; if(a == SHORT) { if(n > 1) n = n / 2; } else FAILI } return call; }
ssize_t read(int fd, void * b, size_t n) { REAL(ssize_t, read, int, void *, size_t); if(ACTIVE && fds.count(fd)) DOREAD("read", r_read(fd, b, n), n) return r_read(fd, b, n); }
ssize_t __read_chk(int fd, void * b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread(int fd, void * b, size_t n, off_t o) { REAL(ssize_t, pread, int, void *, size_t, off_t); if(ACTIVE && fds.count(fd)) DOREAD("pread", r_pread(fd, b, n, o), n) return r_pread(fd, b, n, o); }
ssize_t pread64(int fd, void * b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec * v, int c) { REAL(ssize_t, readv, int, const struct iovec *, int); if(ACTIVE && fds.count(fd)) { In g; if(int a = note("readv", fds[fd].path, 0, false, READ)) { if(a == END) return 0; if(a == SHORT) return r_readv(fd, v, 1); FAILI } } return r_readv(fd, v, c); }
size_t fread(void * b, size_t s, size_t k, FILE * h) {
    REAL(size_t, fread, void *, size_t, size_t, FILE *);
    if(!ACTIVE || !fds.count(fileno(h))) return r_fread(b, s, k, h);
    In g; if(int a = note("fread", fds[fileno(h)].path, s * k, false, READ)) { if(a == END) return 0; if(a == SHORT) return r_fread(b, s, k / 2, h); errno = a; return 0; }
    return r_fread(b, s, k, h);
}
#define WR(n) int a = note(nm, fds[fd].path, n, true, WRITE); if(a == -100) n = (size_t) tornBytes < n ? tornBytes : n; else if(a == SHORT || a == END) { if(n > 1) n = n / 2; } else if(a) FAILI
ssize_t write(int fd, const void * b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t); if(!ACTIVE || !fds.count(fd)) return r_write(fd, b, n);
    In g; const char * nm = "write"; WR(n) const ssize_t r = r_write(fd, b, n); if(a == -100) { errno = EIO; return -1; } return r;
}
ssize_t pwrite(int fd, const void * b, size_t n, off_t o) {
    REAL(ssize_t, pwrite, int, const void *, size_t, off_t); if(!ACTIVE || !fds.count(fd)) return r_pwrite(fd, b, n, o);
    In g; const char * nm = "pwrite"; WR(n) const ssize_t r = r_pwrite(fd, b, n, o); if(a == -100) { errno = EIO; return -1; } return r;
}
ssize_t pwrite64(int fd, const void * b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec * v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int); REAL(ssize_t, write, int, const void *, size_t); if(!ACTIVE || !fds.count(fd)) return r_writev(fd, v, c);
    In g; std::string all; for(int i = 0; i < c; ++i) all.append((const char *) v[i].iov_base, v[i].iov_len);
    const char * nm = "writev"; size_t n = all.size(); WR(n) const ssize_t r = r_write(fd, all.data(), n); if(a == -100) { errno = EIO; return -1; } return r;
}
size_t fwrite(const void * b, size_t s, size_t k, FILE * h) {
    REAL(size_t, fwrite, const void *, size_t, size_t, FILE *); REAL(ssize_t, write, int, const void *, size_t);
    if(!ACTIVE || !fds.count(fileno(h))) return r_fwrite(b, s, k, h);
    In g; const int fd = fileno(h);
    int a = note("fwrite", fds[fd].path, s * k, true, WRITE);
    if(a == -100) { if(r_write(fd, b, (size_t) tornBytes < s * k ? tornBytes : s * k)) {} errno = EIO; return 0; }
    if(a == SHORT || a == END) { r_fwrite(b, s, k / 2, h); errno = ENOSPC; return k / 2; }
    if(a) { errno = a; return 0; }
    return r_fwrite(b, s, k, h);
}
int fflush(FILE * h) { REAL(int, fflush, FILE *); return r_fflush(h); }
ssize_t sendfile(int o, int i, off_t * off, size_t n) { REAL(ssize_t, sendfile, int, int, off_t *, size_t); if(ACTIVE && fds.count(o)) { In g; int fd = o; const char * nm = "sendfile"; WR(n) const ssize_t r = r_sendfile(o, i, off, n); if(a == -100) { errno = EIO; return -1; } return r; } return r_sendfile(o, i, off, n); }
off_t lseek(int fd, off_t o, int w) { REAL(off_t, lseek, int, off_t, int); if(ACTIVE && fds.count(fd)) { In g; if(int a = note("lseek", fds[fd].path, 0, false, SEEK)) FAILI } return r_lseek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int mkdir(const char * p, mode_t m) { REAL(int, mkdir, const char *, mode_t); if(ACTIVE) { In g; const auto f = full(AT_FDCWD, p); if(ours(f)) if(int a = note("mkdir", f, 0, true, MKDIR)) FAILI } return r_mkdir(p, m); }
int mkdirat(int d, const char * p, mode_t m) { REAL(int, mkdirat, int, const char *, mode_t); if(ACTIVE) { In g; const auto f = full(d, p); if(ours(f)) if(int a = note("mkdirat", f, 0, true, MKDIR)) FAILI } return r_mkdirat(d, p, m); }
int unlink(const char * p) { REAL(int, unlink, const char *); if(ACTIVE) { In g; const auto f = full(AT_FDCWD, p); if(ours(f)) if(int a = note("unlink", f, 0, true, REMOVE)) FAILI } return r_unlink(p); }
int rmdir(const char * p) { REAL(int, rmdir, const char *); if(ACTIVE) { In g; const auto f = full(AT_FDCWD, p); if(ours(f)) if(int a = note("rmdir", f, 0, true, REMOVE)) FAILI } return r_rmdir(p); }
int remove(const char * p) { REAL(int, remove, const char *); if(ACTIVE) { In g; const auto f = full(AT_FDCWD, p); if(ours(f)) if(int a = note("remove", f, 0, true, REMOVE)) FAILI } return r_remove(p); }
int unlinkat(int d, const char * p, int fl) { REAL(int, unlinkat, int, const char *, int); if(ACTIVE) { In g; const auto f = full(d, p); if(ours(f)) if(int a = note("unlinkat", f, 0, true, REMOVE)) FAILI } return r_unlinkat(d, p, fl); }
int rename(const char * p, const char * q) { REAL(int, rename, const char *, const char *); if(ACTIVE) { In g; const auto f = full(AT_FDCWD, q); if(ours(f)) if(int a = note("rename", f, 0, true, RENAME)) FAILI } return r_rename(p, q); }
int renameat(int d, const char * p, int e, const char * q) { REAL(int, renameat, int, const char *, int, const char *); if(ACTIVE) { In g; const auto f = full(e, q); if(ours(f)) if(int a = note("renameat", f, 0, true, RENAME)) FAILI } return r_renameat(d, p, e, q); }
int link(const char * p, const char * q) { REAL(int, link, const char *, const char *); if(ACTIVE) { In g; const auto f = full(AT_FDCWD, q); if(ours(f)) if(int a = note("link", f, 0, true, RENAME)) FAILI } return r_link(p, q); }
int symlink(const char * p, const char * q) { REAL(int, symlink, const char *, const char *); if(ACTIVE) { In g; const auto f = full(AT_FDCWD, q); if(ours(f)) if(int a = note("symlink", f, 0, true, RENAME)) FAILI } return r_symlink(p, q); }
int truncate(const char * p, off_t n) { REAL(int, truncate, const char *, off_t); if(ACTIVE) { In g; const auto f = full(AT_FDCWD, p); if(ours(f)) if(int a = note("truncate", f, n, true, TRUNC)) FAILI } return r_truncate(p, n); }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t); if(ACTIVE && fds.count(fd)) { In g; if(int a = note("ftruncate", fds[fd].path, n, true, TRUNC)) FAILI } return r_ftruncate(fd, n); }
int fsync(int fd) { REAL(int, fsync, int); if(ACTIVE && fds.count(fd)) { In g; if(int a = note("fsync", fds[fd].path, 0, false, CLOSEW)) FAILI } return r_fsync(fd); }
int fdatasync(int fd) { REAL(int, fdatasync, int); if(ACTIVE && fds.count(fd)) { In g; if(int a = note("fdatasync", fds[fd].path, 0, false, CLOSEW)) FAILI } return r_fdatasync(fd); }
int fchmod(int fd, mode_t m) { REAL(int, fchmod, int, mode_t); if(ACTIVE && fds.count(fd)) { In g; if(int a = note("fchmod", fds[fd].path, 0, true, OTHER)) FAILI } return r_fchmod(fd, m); }
DIR * opendir(const char * p) {
    REAL(DIR *, opendir, const char *); if(!ACTIVE) return r_opendir(p);
    In g; const auto f = full(AT_FDCWD, p); if(!ours(f)) return r_opendir(p);
    if(int a = note("opendir", f, 0, false, OPENDIR)) { errno = a; return nullptr; }
    DIR * d = r_opendir(p); if(d) { dirs[d] = f; fds[dirfd(d)] = {f, false}; } return d;
}
DIR * fdopendir(int fd) {
    REAL(DIR *, fdopendir, int); if(!ACTIVE || !fds.count(fd)) return r_fdopendir(fd);
    In g; if(int a = note("fdopendir", fds[fd].path, 0, false, OPENDIR)) { errno = a; return nullptr; }
    DIR * d = r_fdopendir(fd); if(d) dirs[d] = fds[fd].path; return d;
}
// (listings are sorted by nothing: the order is the file system's, identical for identical histories)
struct dirent * readdir(DIR * d) {
    REAL(struct dirent *, readdir, DIR *); if(!ACTIVE || !dirs.count(d)) return r_readdir(d);
    In g; if(int a = note("readdir", dirs[d], 0, false, READDIR)) { errno = a; return nullptr; }
    return r_readdir(d);
}
struct dirent64 * readdir64(DIR * d) {
    REAL(struct dirent64 *, readdir64, DIR *); if(!ACTIVE || !dirs.count(d)) return r_readdir64(d);
    In g; if(int a = note("readdir", dirs[d], 0, false, READDIR)) { errno = a; return nullptr; }
    return r_readdir64(d);
}
int closedir(DIR * d) { REAL(int, closedir, DIR *); if(ACTIVE) { In g; auto it = dirs.find(d); if(it != dirs.end()) { dirs.erase(it); fds.erase(dirfd(d)); } } return r_closedir(d); }
}
