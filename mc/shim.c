/* Interposes the file system calls of a process (LD_PRELOAD) on chosen folders: counts and records them, ends the process or makes a
 * call fail at a chosen one, or asks a scheduler before each.  Off until armed; a forked child is armed by itself (mc/shim.py). */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF = 0, COUNT = 1, CRASH = 2, TORN = 3, FAIL = 4, FULL = 5, SCHED = 6 };
static int mode = OFF;
static long at, seen;
static int err_no, rfd = -1, wfd = -1, hits;
static int tid = -1;
static char prefix[16][512];
static int nprefix;
#define MAXFD 4096
static char *fdpath[MAXFD];
static char fdlock[MAXFD];
static char *logbuf;
static size_t loglen, logcap;

void mc_arm(int m, long k, int e, const char *prefixes, int r, int w) {
    nprefix = 0;
    for (const char *p = prefixes; *p && nprefix < 16;) {
        const char *q = strchr(p, '\n');
        size_t n = q ? (size_t)(q - p) : strlen(p);
        if (n && n < 512) { memcpy(prefix[nprefix], p, n); prefix[nprefix++][n] = 0; }
        p += n + (q ? 1 : 0);
    }
    at = k; err_no = e; rfd = r; wfd = w; seen = 0; hits = 0; loglen = 0;
    tid = syscall(SYS_gettid);
    mode = m;
}
void mc_disarm(void) { mode = OFF; }
long mc_seen(void) { return seen; }
int mc_hits(void) { return hits; }
const char *mc_log(void) { return logbuf ? logbuf : ""; }

static int watched(const char *p) {
    if (mode == OFF || !p || p[0] != '/') return 0;
    for (int i = 0; i < nprefix; i++) {
        size_t n = strlen(prefix[i]);
        if (!strncmp(p, prefix[i], n) && (p[n] == '/' || p[n] == 0)) return 1;
    }
    return 0;
}
static const char *absolute(int dirfd, const char *p, char *buf) {
    if (!p) return p;
    if (p[0] == '/') {
        strncpy(buf, p, 4095); buf[4095] = 0;
    } else {
        char dir[2048];
        if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, dir, sizeof dir) < 0) return NULL; }
        else {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t n = syscall(SYS_readlink, l, dir, sizeof dir - 1);
            if (n < 0) return NULL;
            dir[n] = 0;
        }
        snprintf(buf, 4096, "%s/%s", dir, p);
    }
    /* "//" and trailing "/" */
    char *o = buf;
    for (char *c = buf; *c; c++) if (!(c[0] == '/' && (c[1] == '/' || c[1] == 0) && c != buf)) *o++ = *c;
    *o = 0;
    return buf;
}
static void record(const char *kind, const char *p, const char *p2, long n) {
    char line[9000];
    int l = snprintf(line, sizeof line, "%s\t%s\t%s\t%ld\n", kind, p ? p : "", p2 ? p2 : "", n);
    if (mode == SCHED) {
        /* ask the scheduler */
        char go;
        long r;
        r = syscall(SYS_write, wfd, line, (size_t)l);
        if (r != l) syscall(SYS_exit_group, 99);
        do r = syscall(SYS_read, rfd, &go, 1); while (r < 0 && errno == EINTR);
        if (r != 1) syscall(SYS_exit_group, 98);
        return;
    }
    if (loglen + l + 1 > logcap) { logcap = (logcap + l) * 2 + 65536; logbuf = realloc(logbuf, logcap); }
    memcpy(logbuf + loglen, line, l + 1);
    loglen += l;
}
/* mutating call: 0 go on, 1 fail with errno set, 2 torn write */
static int change(const char *kind, const char *p, const char *p2, long n, int is_write) {
    int e = errno;
    seen++;
    record(kind, p, p2, n);
    int r = 0;
    if (mode == CRASH && seen == at) syscall(SYS_exit_group, 77);
    if (mode == TORN && seen == at) { if (is_write) r = 2; else syscall(SYS_exit_group, 77); }
    if (mode == FAIL && seen == at) { hits++; errno = err_no; return 1; }
    if (mode == FULL && seen >= at && (is_write || !strcmp(kind, "create") || !strcmp(kind, "mkdir") || !strcmp(kind, "truncate"))) {
        hits++;
        errno = ENOSPC;
        return 1;
    }
    errno = e;
    return r;
}
static void look(const char *kind, const char *p) {
    if (mode != SCHED) return;
    int e = errno;
    record(kind, p, NULL, 0);
    errno = e;
}
#define REAL(name) static typeof(&name) real; if (!real) real = (typeof(&name))dlsym(RTLD_NEXT, #name)
static void track(int fd, const char *p) {
    if (fd < 0 || fd >= MAXFD) return;
    free(fdpath[fd]);
    fdpath[fd] = p ? strdup(p) : NULL;
    fdlock[fd] = 0;
}
static const char *path_of(int fd) { return mode != OFF && fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL; }

/* what an open does: 0 nothing to a file, 1 changes it */
static int before_open(const char *p, int flags) {
    if ((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC))) { look("open", p); return 0; }
    struct stat st;
    int there = syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0) == 0;
    if (!there && (flags & O_CREAT)) return change("create", p, NULL, 0, 0);
    if (there && (flags & O_TRUNC) && st.st_size) return change("truncate", p, NULL, 0, 0);
    look("openw", p);
    return 0;
}
#define OPEN_BODY(dir, CALL) \
    mode_t m = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    char b[4096]; const char *p = mode != OFF ? absolute(dir, path, b) : NULL; \
    int w = watched(p); \
    if (w && before_open(p, flags) == 1) return -1; \
    int fd = CALL; \
    if (fd >= 0) track(fd, w ? p : NULL); \
    return fd;
int open(const char *path, int flags, ...) { REAL(open); OPEN_BODY(AT_FDCWD, real(path, flags, m)) }
int open64(const char *path, int flags, ...) { REAL(open64); OPEN_BODY(AT_FDCWD, real(path, flags, m)) }
int openat(int dir, const char *path, int flags, ...) { REAL(openat); OPEN_BODY(dir, real(dir, path, flags, m)) }
int openat64(int dir, const char *path, int flags, ...) { REAL(openat64); OPEN_BODY(dir, real(dir, path, flags, m)) }
int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return open64(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
static int fopen_flags(const char *md) {
    int plus = strchr(md, '+') != NULL;
    if (md[0] == 'r') return plus ? O_RDWR : O_RDONLY;
    if (md[0] == 'w') return O_CREAT | O_TRUNC | (plus ? O_RDWR : O_WRONLY);
    return O_CREAT | O_APPEND | (plus ? O_RDWR : O_WRONLY);
}
FILE *fopen(const char *path, const char *md) {
    REAL(fopen);
    char b[4096]; const char *p = mode != OFF ? absolute(AT_FDCWD, path, b) : NULL;
    if (watched(p) && before_open(p, fopen_flags(md)) == 1) return NULL;
    return real(path, md);
}
FILE *fopen64(const char *path, const char *md) {
    REAL(fopen64);
    char b[4096]; const char *p = mode != OFF ? absolute(AT_FDCWD, path, b) : NULL;
    if (watched(p) && before_open(p, fopen_flags(md)) == 1) return NULL;
    return real(path, md);
}
#define WRITE_BODY(fdx, n, CALL, HALF) \
    const char *p = path_of(fdx); \
    if (p) { \
        int c = change("write", p, NULL, (long)(n), 1); \
        if (c == 1) return -1; \
        if (c == 2) { HALF; syscall(SYS_exit_group, 77); } \
    } \
    return CALL;
ssize_t write(int fd, const void *b, size_t n) { REAL(write); WRITE_BODY(fd, n, real(fd, b, n), real(fd, b, n / 2)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); WRITE_BODY(fd, n, real(fd, b, n, o), real(fd, b, n / 2, o)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); WRITE_BODY(fd, n, real(fd, b, n, o), real(fd, b, n / 2, o)) }
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(writev); WRITE_BODY(fd, n, real(fd, v, n), real(fd, v, n / 2)) }
static size_t half(int in, size_t n) {
    struct stat st;
    if (syscall(SYS_fstat, in, &st) == 0 && (size_t)st.st_size < n) n = st.st_size;
    return n / 2;
}
ssize_t sendfile(int o, int i, off_t *f, size_t n) { REAL(sendfile); WRITE_BODY(o, n, real(o, i, f, n), real(o, i, f, half(i, n))) }
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) { REAL(sendfile64); WRITE_BODY(o, n, real(o, i, f, n), real(o, i, f, half(i, n))) }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) { REAL(copy_file_range); WRITE_BODY(o, n, real(i, a, o, b, n, f), real(i, a, o, b, half(i, n), f)) }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); const char *p = path_of(fd); if (p && change("truncate", p, NULL, n, 0) == 1) return -1; return real(fd, n); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); const char *p = path_of(fd); if (p && change("truncate", p, NULL, n, 0) == 1) return -1; return real(fd, n); }
ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    const char *p = mode == SCHED ? path_of(fd) : NULL;
    if (p) look("read", p);
    return real(fd, b, n);
}
int close(int fd) {
    REAL(close);
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) {
        if (fdlock[fd] && mode == SCHED) look("unlock", fdpath[fd]);
        track(fd, NULL);
    }
    return real(fd);
}
int flock(int fd, int op) {
    REAL(flock);
    const char *p = path_of(fd);
    if (!p) return real(fd, op);
    if (mode == SCHED) {
        if ((op & ~LOCK_NB) == LOCK_UN) { look("unlock", p); fdlock[fd] = 0; return real(fd, op); }
        for (;;) {
            look(op & LOCK_NB ? "trylock" : "lock", p);
            int r = real(fd, op | LOCK_NB);
            if (r == 0) { fdlock[fd] = 1; return 0; }
            if (op & LOCK_NB) return r;
            if (errno != EWOULDBLOCK) return r;
            look("blocked", p);
        }
    }
    if ((op & ~LOCK_NB) != LOCK_UN && change("lock", p, NULL, 0, 0) == 1) return -1;
    return real(fd, op);
}
#define TWO(kind, d1, a, d2, b2, CALL) \
    char x[4096], y[4096]; \
    const char *p = mode != OFF ? absolute(d1, a, x) : NULL, *q = mode != OFF ? absolute(d2, b2, y) : NULL; \
    if ((watched(p) || watched(q)) && change(kind, p, q, 0, 0) == 1) return -1; \
    return CALL;
int rename(const char *a, const char *b) { REAL(rename); TWO("rename", AT_FDCWD, a, AT_FDCWD, b, real(a, b)) }
int renameat(int d, const char *a, int e, const char *b) { REAL(renameat); TWO("rename", d, a, e, b, real(d, a, e, b)) }
int link(const char *a, const char *b) { REAL(link); TWO("link", AT_FDCWD, a, AT_FDCWD, b, real(a, b)) }
int linkat(int d, const char *a, int e, const char *b, int f) { REAL(linkat); TWO("link", d, a, e, b, real(d, a, e, b, f)) }
int symlink(const char *a, const char *b) { REAL(symlink); TWO("link", AT_FDCWD, a, AT_FDCWD, b, real(a, b)) }
#define ONE(kind, d, a, CALL) \
    char x[4096]; const char *p = mode != OFF ? absolute(d, a, x) : NULL; \
    if (watched(p) && change(kind, p, NULL, 0, 0) == 1) return -1; \
    return CALL;
int unlink(const char *a) { REAL(unlink); ONE("unlink", AT_FDCWD, a, real(a)) }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); ONE("unlink", d, a, real(d, a, f)) }
int rmdir(const char *a) { REAL(rmdir); ONE("rmdir", AT_FDCWD, a, real(a)) }
int mkdir(const char *a, mode_t m) { REAL(mkdir); ONE("mkdir", AT_FDCWD, a, real(a, m)) }
int mkdirat(int d, const char *a, mode_t m) { REAL(mkdirat); ONE("mkdir", d, a, real(d, a, m)) }
#define LOOK(kind, d, a) do { if (mode == SCHED) { char x[4096]; const char *p = absolute(d, a, x); if (watched(p)) look(kind, p); } } while (0)
int stat(const char *a, struct stat *s) { REAL(stat); LOOK("stat", AT_FDCWD, a); return real(a, s); }
int stat64(const char *a, struct stat64 *s) { REAL(stat64); LOOK("stat", AT_FDCWD, a); return real(a, s); }
int lstat(const char *a, struct stat *s) { REAL(lstat); LOOK("stat", AT_FDCWD, a); return real(a, s); }
int lstat64(const char *a, struct stat64 *s) { REAL(lstat64); LOOK("stat", AT_FDCWD, a); return real(a, s); }
int fstatat(int d, const char *a, struct stat *s, int f) { REAL(fstatat); LOOK("stat", d, a); return real(d, a, s, f); }
int fstatat64(int d, const char *a, struct stat64 *s, int f) { REAL(fstatat64); LOOK("stat", d, a); return real(d, a, s, f); }
int access(const char *a, int m) { REAL(access); LOOK("stat", AT_FDCWD, a); return real(a, m); }
int faccessat(int d, const char *a, int m, int f) { REAL(faccessat); LOOK("stat", d, a); return real(d, a, m, f); }
DIR *opendir(const char *a) { REAL(opendir); LOOK("list", AT_FDCWD, a); return real(a); }
