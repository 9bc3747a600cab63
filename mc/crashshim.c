/* Counts the calls by which the process changes files below one directory and makes the process die at the k-th.
   crash_arm(dir, k, mode): mode 0 die before, 1 half of the data written, 2 one byte written, 3 die after, 4 fail with ENOSPC, 5 half of the
   data written, then fail, 6 write half and say so (no fault), 7 die before and lose what was written
   but not synced (power loss).  k=0 only counts; crash_power() is the power loss after the last call. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir[PATH_MAX];
static int armed, at, mode, count, nlog;
static char tracked[4096];
static char names[400][24];
/* files written: a descriptor of our own, and the size when they were last synced */
static struct { dev_t dev; ino_t ino; int fd; off_t synced; } dirty[64];
static int ndirty;

void crash_arm(const char *d, int k, int m) { strncpy(dir, d, sizeof dir - 1); at = k; mode = m; count = 0; nlog = 0; ndirty = 0; armed = 1; }
void crash_disarm(void) { armed = 0; }
int crash_count(void) { return count; }
const char *crash_name(int i) { return i < nlog ? names[i] : ""; }
static void lose(void) { for (int i = 0; i < ndirty; i++) syscall(SYS_ftruncate, dirty[i].fd, dirty[i].synced); }
static int note(int fd, int synced) {
    struct stat st;
    if (fstat(fd, &st) || !S_ISREG(st.st_mode)) return -1;
    for (int i = 0; i < ndirty; i++) if (dirty[i].dev == st.st_dev && dirty[i].ino == st.st_ino) {
        if (synced || st.st_size < dirty[i].synced) dirty[i].synced = st.st_size;
        return i;
    }
    if (ndirty == 64) return -1;
    int d = syscall(SYS_dup, fd);
    if (d < 0) return -1;
    dirty[ndirty].dev = st.st_dev; dirty[ndirty].ino = st.st_ino; dirty[ndirty].fd = d; dirty[ndirty].synced = st.st_size;
    return ndirty++;
}
static void die(void) { syscall(SYS_exit_group, 99); }
void crash_power(void) { lose(); die(); }
#define REAL(n) static __typeof__(n) *real; if (!real) real = dlsym(RTLD_NEXT, #n)

static int inside(int dfd, const char *p) {
    char b[PATH_MAX];
    if (!armed || !p) return 0;
    if (p[0] == '/') return !strncmp(p, dir, strlen(dir));
    if (dfd != AT_FDCWD) {
        char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
        ssize_t n = readlink(l, b, sizeof b - 1);
        if (n < 0) return 0;
        b[n] = 0;
    } else if (!getcwd(b, sizeof b)) return 0;
    return !strncmp(b, dir, strlen(dir));
}
static int mine(int fd) { return armed && fd >= 0 && fd < 4096 && tracked[fd]; }
/* 0: go on; the fault of this call otherwise + 1 */
static int hit(const char *n) {
    count++;
    if (nlog < 400) { strncpy(names[nlog], n, 23); nlog++; }
    if (count != at) return 0;
    if (mode == 7) { lose(); die(); }
    if (mode == 0) die();
    return mode + 1;
}
#define SIMPLE(n, cond, call) { int h = 0; if (cond) h = hit(n); if (h == 5 || h == 6) { errno = ENOSPC; return -1; } int r = call; if (h == 2 || h == 3 || h == 4) die(); return r; }

static int opened(int fd, int cond) { if (cond && fd >= 0 && fd < 4096) { tracked[fd] = 1; note(fd, 0); } return fd; }
#define OPEN(n, sig, path, dfd, flags, call) \
    int n sig { REAL(n); mode_t m = 0; va_list a; va_start(a, flags); if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(a, mode_t); va_end(a); \
    int c = inside(dfd, path), h = 0; int w = c && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)); if (w) h = hit("open"); \
    if (h == 5 || h == 6) { errno = ENOSPC; return -1; } int r = call; if (h == 2 || h == 3 || h == 4) die(); return opened(r, w); }
OPEN(open, (const char *p, int f, ...), p, AT_FDCWD, f, real(p, f, m))
OPEN(open64, (const char *p, int f, ...), p, AT_FDCWD, f, real(p, f, m))
OPEN(openat, (int d, const char *p, int f, ...), p, d, f, real(d, p, f, m))
OPEN(openat64, (int d, const char *p, int f, ...), p, d, f, real(d, p, f, m))
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t torn(int h, int fd, const void *b, size_t n, ssize_t (*f)(int, const void *, size_t)) {
    if (h == 5) { errno = ENOSPC; return -1; }
    if (h == 2 || h == 6 || h == 7) {
        ssize_t r = f(fd, b, n / 2);
        if (h == 2) die();
        if (h == 6) { errno = ENOSPC; at = count + 1; mode = 4; return r; }
        return n > 1 ? r : f(fd, b, n);
    }
    if (h == 3) { f(fd, b, 1); die(); }
    ssize_t r = f(fd, b, n);
    if (h == 4) die();
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { REAL(write); return torn(mine(fd) ? hit("write") : 0, fd, b, n, real); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); SIMPLE("pwrite", mine(fd), real(fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); SIMPLE("pwrite", mine(fd), real(fd, b, n, o)) }
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(writev); SIMPLE("writev", mine(fd), real(fd, v, n)) }
ssize_t sendfile(int o, int i, off_t *f, size_t n) { static ssize_t (*real)(int, int, off_t *, size_t); if (!real) real = dlsym(RTLD_NEXT, "sendfile"); SIMPLE("sendfile", mine(o), real(o, i, f, n)) }
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) { static ssize_t (*real)(int, int, off64_t *, size_t); if (!real) real = dlsym(RTLD_NEXT, "sendfile64"); SIMPLE("sendfile", mine(o), real(o, i, f, n)) }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) { REAL(copy_file_range); SIMPLE("copy_file_range", mine(o), real(i, io, o, oo, n, f)) }
int fsync(int fd) { REAL(fsync); SIMPLE("fsync", mine(fd), (mine(fd) ? note(fd, 1) : 0, real(fd))) }
int fdatasync(int fd) { REAL(fdatasync); SIMPLE("fdatasync", mine(fd), (mine(fd) ? note(fd, 1) : 0, real(fd))) }
void sync(void) { REAL(sync); real(); for (int i = 0; i < ndirty; i++) note(dirty[i].fd, 1); }
int syncfs(int fd) { REAL(syncfs); for (int i = 0; i < ndirty; i++) note(dirty[i].fd, 1); return real(fd); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); SIMPLE("ftruncate", mine(fd), real(fd, n)) }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); SIMPLE("ftruncate", mine(fd), real(fd, n)) }
int truncate(const char *p, off_t n) { REAL(truncate); SIMPLE("truncate", inside(AT_FDCWD, p), real(p, n)) }
int truncate64(const char *p, off64_t n) { REAL(truncate64); SIMPLE("truncate", inside(AT_FDCWD, p), real(p, n)) }
int rename(const char *a, const char *b) { REAL(rename); SIMPLE("rename", inside(AT_FDCWD, a) || inside(AT_FDCWD, b), real(a, b)) }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat); SIMPLE("rename", inside(x, a) || inside(y, b), real(x, a, y, b)) }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { REAL(renameat2); SIMPLE("rename", inside(x, a) || inside(y, b), real(x, a, y, b, f)) }
int unlink(const char *p) { REAL(unlink); SIMPLE("unlink", inside(AT_FDCWD, p), real(p)) }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); SIMPLE("unlink", inside(d, p), real(d, p, f)) }
int rmdir(const char *p) { REAL(rmdir); SIMPLE("rmdir", inside(AT_FDCWD, p), real(p)) }
int remove(const char *p) { REAL(remove); SIMPLE("unlink", inside(AT_FDCWD, p), real(p)) }
int link(const char *a, const char *b) { REAL(link); SIMPLE("link", inside(AT_FDCWD, b), real(a, b)) }
int linkat(int x, const char *a, int y, const char *b, int f) { REAL(linkat); SIMPLE("link", inside(y, b), real(x, a, y, b, f)) }
int symlink(const char *a, const char *b) { REAL(symlink); SIMPLE("symlink", inside(AT_FDCWD, b), real(a, b)) }
int symlinkat(const char *a, int d, const char *b) { REAL(symlinkat); SIMPLE("symlink", inside(d, b), real(a, d, b)) }
int mkdir(const char *p, mode_t m) { REAL(mkdir); SIMPLE("mkdir", inside(AT_FDCWD, p), real(p, m)) }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); SIMPLE("mkdir", inside(d, p), real(d, p, m)) }
int close(int fd) { REAL(close); int c = mine(fd); int h = c ? hit("close") : 0; if (c) tracked[fd] = 0;
    int r = real(fd); if (h >= 2 && h <= 4) die(); if (h == 5 || h == 6) { errno = ENOSPC; return -1; } return r; }
static int duped(int o, int n) { if (n >= 0 && n < 4096) tracked[n] = o >= 0 && o < 4096 && tracked[o]; return n; }
int dup(int fd) { REAL(dup); return duped(fd, real(fd)); }
int dup2(int a, int b) { REAL(dup2); return duped(a, real(a, b)); }
int dup3(int a, int b, int f) { REAL(dup3); return duped(a, real(a, b, f)); }
FILE *fopen(const char *p, const char *m) { REAL(fopen); if (inside(AT_FDCWD, p) && strpbrk(m, "wa+")) { int h = hit("fopen"); if (h == 5 || h == 6) { errno = ENOSPC; return NULL; }
    FILE *f = real(p, m); if (h >= 2 && h <= 4) die(); return f; } return real(p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64); if (inside(AT_FDCWD, p) && strpbrk(m, "wa+")) { int h = hit("fopen"); if (h == 5 || h == 6) { errno = ENOSPC; return NULL; }
    FILE *f = real(p, m); if (h >= 2 && h <= 4) die(); return f; } return real(p, m); }
