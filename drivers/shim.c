/* LD_PRELOAD library: records what a process does to the files below one
   directory, and (when asked to) waits for permission before each step.
   Writes are performed; fsync is only recorded.

   vt_watch(dir, logfd)   start recording (dir NULL: stop)
   vt_mark(n)             put a mark into the record
   vt_gate(outfd, infd)   before each step: write a line to outfd, then read a byte from infd */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir[512];
static size_t dirlen;
static int logfd = -1, gout = -1, gin = -1;

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static ssize_t raw_write(int fd, const void *b, size_t n) {
    const char *p = b; size_t left = n;
    while (left) {
        ssize_t r = syscall(SYS_write, fd, p, left);
        if (r <= 0) { if (errno == EINTR) continue; return -1; }
        p += r; left -= r;
    }
    return n;
}
static void note(const char *fmt, ...) {
    char buf[1400]; va_list ap;
    if (logfd < 0) return;
    va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    raw_write(logfd, buf, n);
}
static void gate(const char *what, const char *path) {
    char buf[700]; char c;
    if (gout < 0) return;
    int e = errno;
    int n = snprintf(buf, sizeof buf, "%s %s\n", what, path);
    raw_write(gout, buf, n);
    while (syscall(SYS_read, gin, &c, 1) < 0 && errno == EINTR) ;
    errno = e;
}
static int in(const char *path) {
    return dirlen && path && strncmp(path, dir, dirlen) == 0 && path[dirlen] == '/';
}
/* is fd a watched file? gives its path and inode */
static int fdin(int fd, char *path, unsigned long *ino) {
    char proc[40]; struct stat st;
    if (!dirlen || fd == logfd) return 0;
    snprintf(proc, sizeof proc, "/proc/self/fd/%d", fd);
    int e = errno;
    ssize_t n = readlink(proc, path, 500);
    if (n <= 0) { errno = e; return 0; }
    path[n] = 0;
    if (!in(path) || fstat(fd, &st) || !S_ISREG(st.st_mode)) { errno = e; return 0; }
    *ino = st.st_ino;
    errno = e;
    return 1;
}

void vt_watch(const char *d, int fd) {
    if (d) { strncpy(dir, d, sizeof dir - 1); dirlen = strlen(dir); logfd = fd; }
    else { dirlen = 0; logfd = -1; }
}
void vt_mark(long n) { note("M %ld\n", n); }
void vt_gate(int out, int i) { gout = out; gin = i; }

static int opened(int fd, const char *path, int flags, int existed) {
    struct stat st;
    if (fd < 0) return fd;
    int e = errno;
    if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
        note("O %lu %d %d %s\n", (unsigned long)st.st_ino, flags & O_ACCMODE, !existed, path);
        if (flags & O_TRUNC) note("T %lu 0\n", (unsigned long)st.st_ino);
    }
    errno = e;
    return fd;
}
#define OPENBODY(call) \
    mode_t m = 0; va_list ap; va_start(ap, flags); \
    if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(ap, mode_t); va_end(ap); \
    if (!in(path)) return call; \
    gate(flags & O_TRUNC ? "opentrunc" : flags & O_CREAT ? "create" : "open", path); \
    struct stat st; int e0 = errno; int existed = stat(path, &st) == 0; errno = e0; \
    return opened(call, path, flags, existed);

int open(const char *path, int flags, ...) { REAL(open); OPENBODY(real(path, flags, m)) }
int open64(const char *path, int flags, ...) { REAL(open64); OPENBODY(real(path, flags, m)) }
int openat(int d, const char *path, int flags, ...) { REAL(openat); OPENBODY(real(d, path, flags, m)) }
int openat64(int d, const char *path, int flags, ...) { REAL(openat64); OPENBODY(real(d, path, flags, m)) }

static void wrote(unsigned long ino, long off, const void *b, ssize_t n) {
    if (n < 0 || logfd < 0) return;
    int e = errno;
    note("W %lu %ld %ld\n", ino, off, (long)n);
    raw_write(logfd, b, n);
    note("\n");
    errno = e;
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    char p[512]; unsigned long ino;
    if (!fdin(fd, p, &ino)) return real(fd, b, n);
    gate("write", p);
    struct stat st;
    long off = (fcntl(fd, F_GETFL) & O_APPEND) ? (fstat(fd, &st), st.st_size) : lseek(fd, 0, SEEK_CUR);
    ssize_t r = real(fd, b, n);
    wrote(ino, off, b, r);
    return r;
}
static ssize_t pw(ssize_t r, int in_, unsigned long ino, const void *b, long off) { if (in_) wrote(ino, off, b, r); return r; }
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) {
    REAL(pwrite); char p[512]; unsigned long ino; int w = fdin(fd, p, &ino);
    if (w) gate("write", p);
    return pw(real(fd, b, n, off), w, ino, b, off);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) {
    REAL(pwrite64); char p[512]; unsigned long ino; int w = fdin(fd, p, &ino);
    if (w) gate("write", p);
    return pw(real(fd, b, n, off), w, ino, b, off);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev); char p[512]; unsigned long ino;
    if (!fdin(fd, p, &ino)) return real(fd, v, c);
    ssize_t total = 0;
    for (int i = 0; i < c; i++) { ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return r; total += r; }
    return total;
}
static int trunc_(int r, int w, unsigned long ino, long size) { if (w && r == 0) note("T %lu %ld\n", ino, size); return r; }
int ftruncate(int fd, off_t s) {
    REAL(ftruncate); char p[512]; unsigned long ino; int w = fdin(fd, p, &ino);
    if (w) gate("truncate", p);
    return trunc_(real(fd, s), w, ino, s);
}
int ftruncate64(int fd, off64_t s) {
    REAL(ftruncate64); char p[512]; unsigned long ino; int w = fdin(fd, p, &ino);
    if (w) gate("truncate", p);
    return trunc_(real(fd, s), w, ino, s);
}
int truncate(const char *path, off_t s) {
    REAL(truncate); struct stat st; int w = in(path) && stat(path, &st) == 0;
    if (w) gate("truncate", path);
    return trunc_(real(path, s), w, st.st_ino, s);
}
static int synced(int fd, int *done) {
    char p[512]; unsigned long ino;
    if (!fdin(fd, p, &ino)) { *done = 0; return 0; }
    *done = 1;
    gate("fsync", p);
    note("F %lu\n", ino);
    return 0;
}
int fsync(int fd) { REAL(fsync); int d; synced(fd, &d); return d ? 0 : real(fd); }
int fdatasync(int fd) { REAL(fdatasync); int d; synced(fd, &d); return d ? 0 : real(fd); }

#define TWO(letter, what, a, b, call) \
    if (!in(a) && !in(b)) return call; \
    gate(what, a); \
    int r = call; if (r == 0) note(letter " %s %s\n", a, b); return r;
int rename(const char *a, const char *b) { REAL(rename); TWO("R", "rename", a, b, real(a, b)) }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat); TWO("R", "rename", a, b, real(x, a, y, b)) }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { REAL(renameat2); TWO("R", "rename", a, b, real(x, a, y, b, f)) }
int link(const char *a, const char *b) { REAL(link); TWO("L", "link", a, b, real(a, b)) }
int linkat(int x, const char *a, int y, const char *b, int f) { REAL(linkat); TWO("L", "link", a, b, real(x, a, y, b, f)) }
#define ONE(path, call) \
    if (!in(path)) return call; \
    gate("unlink", path); \
    int r = call; if (r == 0) note("U %s\n", path); return r;
int unlink(const char *p) { REAL(unlink); ONE(p, real(p)) }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); ONE(p, real(d, p, f)) }

int flock(int fd, int op) {
    REAL(flock); char p[512]; unsigned long ino;
    if (fdin(fd, p, &ino)) gate(op & LOCK_UN ? "unlock" : "lock", p);
    return real(fd, op);
}
int close(int fd) {
    REAL(close); char p[512]; unsigned long ino;
    if (gout >= 0 && fdin(fd, p, &ino)) gate("close", p);
    return real(fd);
}
