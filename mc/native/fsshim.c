/* Loaded with LD_PRELOAD into the process that runs the code under test.  When armed (in a forked child), every
 * file-system call that changes something is an operation with a number; at a chosen number the process is killed
 * before or within the operation, the operation fails, or an interrupt is delivered.  In scheduling mode every
 * operation, and every look at the file system outside the raw folder, waits for permission from the explorer. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <dirent.h>
#include <unistd.h>

enum { OFF, COUNT, KILL, TORN, ERROR, ERROR_ALL, INTR, SCHED };
static int mode = OFF, logfd = -1, cmd_r = -1, cmd_w = -1, err_no = 28;
static long nops = 0, target = 0, param = 0;
static unsigned char tracked[4096];

void shim_arm(int m, long tgt, long par, int log, int rfd, int wfd)
{
    memset(tracked, 0, sizeof tracked);
    nops = 0; target = tgt; param = par; logfd = log; cmd_r = rfd; cmd_w = wfd; mode = m;
}
long shim_ops(void) { return nops; }

static void say(const char *what, const char *path, long len)
{
    if (logfd < 0) return;
    char b[600];
    int k = snprintf(b, sizeof b, "%s %ld %.500s\n", what, len, path ? path : "-");
    syscall(SYS_write, logfd, b, k);
}
/* returns 0: go on, 1: fail with errno set, 2: torn write */
static int op(const char *what, const char *path, long len)
{
    if (mode == OFF) return 0;
    say(what, path, len);
    long k = nops++;
    switch (mode) {
    case KILL: if (k == target) syscall(SYS_exit_group, 77); break;
    case TORN: if (k == target) { if (len > 0) return 2; syscall(SYS_exit_group, 77); } break;
    case ERROR: if (k == target) { errno = err_no; return 1; } break;
    case ERROR_ALL: if (k >= target) { errno = err_no; return 1; } break;
    case INTR: if (k == target) kill(getpid(), SIGINT); break;
    case SCHED: {
        char c = 'o';
        if (syscall(SYS_write, cmd_w, &c, 1) != 1 || syscall(SYS_read, cmd_r, &c, 1) != 1) syscall(SYS_exit_group, 78);
        break; }
    }
    return 0;
}
static void look(const char *what, const char *path)
{
    if (mode != SCHED || !path) return;
    if (path[0] == '/' || !strncmp(path, "raw", 3)) return;     /* library files, inputs */
    op(what, path, 0);
}
#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static int watched_path(const char *p) { return p && strncmp(p, "/dev/", 5) && strncmp(p, "/proc/", 6); }
static int begin_open(const char *p, int flags)
{
    if (mode == OFF) return 0;
    if ((flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) && watched_path(p)) return op("open", p, 0);
    look("openr", p);
    return 0;
}
static int end_open(int fd, const char *p, int flags)
{
    if (mode != OFF && fd >= 0 && fd < 4096) tracked[fd] = (flags & (O_WRONLY | O_RDWR)) && watched_path(p);
    return fd;
}
#define OPENBODY(call) \
    int m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } \
    if (begin_open(p, flags)) return -1; \
    return end_open(call, p, flags)

int open(const char *p, int flags, ...) { REAL(open); OPENBODY(real(p, flags, m)); }
int open64(const char *p, int flags, ...) { REAL(open64); OPENBODY(real(p, flags, m)); }
int openat(int d, const char *p, int flags, ...) { REAL(openat); OPENBODY(real(d, p, flags, m)); }
int openat64(int d, const char *p, int flags, ...) { REAL(openat64); OPENBODY(real(d, p, flags, m)); }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

FILE *fopen64(const char *p, const char *md)
{
    REAL(fopen64);
    if (mode != OFF && strpbrk(md, "wa+")) { if (op("fopen", p, 0)) return NULL; } else look("openr", p);
    return real(p, md);
}
FILE *fopen(const char *p, const char *md)
{
    REAL(fopen);
    if (mode != OFF && strpbrk(md, "wa+")) { if (op("fopen", p, 0)) return NULL; } else look("openr", p);
    return real(p, md);
}
int close(int fd)
{
    REAL(close);
    if (fd >= 0 && fd < 4096) tracked[fd] = 0;
    return real(fd);
}
static int tr(int fd) { return mode != OFF && fd >= 0 && fd < 4096 && tracked[fd]; }
static ssize_t cut(int fd, const void *b, size_t n)
{
    long k = param == 0 ? 1 : param == 1 ? (long)n / 2 : (long)n - 1;
    if (k > 0) syscall(SYS_write, fd, b, k);
    syscall(SYS_exit_group, 77);
    return -1;
}
ssize_t write(int fd, const void *b, size_t n)
{
    REAL(write);
    if (tr(fd)) { int r = op("write", NULL, n); if (r == 1) return -1; if (r == 2) return cut(fd, b, n); }
    return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    REAL(pwrite64);
    if (tr(fd)) { int r = op("pwrite", NULL, n); if (r == 1) return -1; if (r == 2) { lseek(fd, o, SEEK_SET); return cut(fd, b, n); } }
    return real(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(writev);
    if (tr(fd)) { int r = op("writev", NULL, v[0].iov_len); if (r == 1) return -1; if (r == 2) return cut(fd, v[0].iov_base, v[0].iov_len); }
    return real(fd, v, c);
}
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (tr(fd) && op("ftruncate", NULL, 0)) return -1; return real(fd, n); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (tr(fd) && op("ftruncate", NULL, 0)) return -1; return real(fd, n); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); if (op("mkdir", p, 0)) return -1; return real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); if (op("mkdir", p, 0)) return -1; return real(d, p, m); }
int rename(const char *a, const char *b) { REAL(rename); if (op("rename", b, 0)) return -1; return real(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(renameat); if (op("rename", b, 0)) return -1; return real(d, a, e, b); }
int unlink(const char *p) { REAL(unlink); if (op("unlink", p, 0)) return -1; return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); if (op("unlink", p, 0)) return -1; return real(d, p, f); }
int rmdir(const char *p) { REAL(rmdir); if (op("rmdir", p, 0)) return -1; return real(p); }
int link(const char *a, const char *b) { REAL(link); if (op("link", b, 0)) return -1; return real(a, b); }

int stat(const char *p, struct stat *s) { REAL(stat); look("stat", p); return real(p, s); }
int stat64(const char *p, struct stat64 *s) { REAL(stat64); look("stat", p); return real(p, s); }
int lstat(const char *p, struct stat *s) { REAL(lstat); look("stat", p); return real(p, s); }
int lstat64(const char *p, struct stat64 *s) { REAL(lstat64); look("stat", p); return real(p, s); }
int fstatat(int d, const char *p, struct stat *s, int f) { REAL(fstatat); look("stat", p); return real(d, p, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { REAL(fstatat64); look("stat", p); return real(d, p, s, f); }
int access(const char *p, int m) { REAL(access); look("access", p); return real(p, m); }
DIR *opendir(const char *p) { REAL(opendir); look("opendir", p); return real(p); }
