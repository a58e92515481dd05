// Preloaded into the child process of the crash checks: ends the process at a chosen file operation
// below VPH_PREFIX, as a kill at that moment would. Exports vph_mark(step).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static const char *prefix, *only; // only: counts operations on paths containing it
static size_t plen;
static long kill_step = -1, kill_at = -1;
static int kill_mode; // ends the process: 0 before the operation, 1 after half of it, 2 after it
                      // lets it go on: 3 the operation fails, 4 it and all later ones fail, 5 it writes half
static long cur_step = 0, count = 0;
static int reached = 0;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

__attribute__((constructor)) static void init(void) {
    prefix = getenv("VPH_PREFIX");
    plen = prefix ? strlen(prefix) : 0;
    only = getenv("VPH_KILL_ON");
    if (getenv("VPH_KILL_STEP")) kill_step = atol(getenv("VPH_KILL_STEP"));
    if (getenv("VPH_KILL_AT")) kill_at = atol(getenv("VPH_KILL_AT"));
    if (getenv("VPH_KILL_MODE")) kill_mode = atoi(getenv("VPH_KILL_MODE"));
}

void vph_mark(long step) {
    pthread_mutex_lock(&mu);
    cur_step = step;
    if (step == kill_step) count = 0;
    pthread_mutex_unlock(&mu);
}

static int inside(const char *p) { return prefix && p && !strncmp(p, prefix, plen) && (!only || strstr(p + plen, only)); }
static int inside_at(int dirfd, const char *p) {
    if (!prefix || !p) return 0;
    if (p[0] == '/') return inside(p);
    char l[64], t[PATH_MAX];
    if (dirfd == AT_FDCWD) {
        if (!getcwd(t, sizeof t)) return 0;
        return inside(t);
    }
    snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
    ssize_t n = readlink(l, t, sizeof t - 1);
    if (n <= 0) return 0;
    t[n] = 0;
    return inside(t);
}
static int inside_fd(int fd) {
    if (!prefix || fd < 3) return 0;
    return inside_at(fd, "x");
}

// Returns 1 when this operation is the last one (the lock stays held: nothing counted runs afterwards).
static int last_op(void) {
    if (kill_at < 0) return 0;
    pthread_mutex_lock(&mu);
    int hit = 0;
    if (cur_step >= kill_step) {
        count++;
        hit = count >= kill_at || reached;
    }
    if (hit && kill_mode >= 3) {
        int fails = kill_mode == 4 || count == kill_at;
        reached = 1;
        pthread_mutex_unlock(&mu);
        return fails ? 2 : 0;
    }
    if (hit) {
        reached = 1;
        if (kill_mode == 0) _exit(77);
        return 1;
    }
    pthread_mutex_unlock(&mu);
    return 0;
}
#define REAL(name) \
    static __typeof__(name) *real; \
    if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)
#define DONE(hit) do { if (hit == 1) _exit(77); } while (0)
#define FAIL(hit) do { if (hit == 2 && kill_mode != 5) { errno = ENOSPC; return -1; } } while (0)
#define HALF(hit) ((hit == 1 && kill_mode == 1) || (hit == 2 && kill_mode == 5 && n > 1))

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (!inside_fd(fd)) return real(fd, b, n);
    int hit = last_op();
    FAIL(hit);
    ssize_t r = real(fd, b, HALF(hit) ? n / 2 : n);
    DONE(hit);
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(pwrite);
    if (!inside_fd(fd)) return real(fd, b, n, o);
    int hit = last_op();
    FAIL(hit);
    ssize_t r = real(fd, b, HALF(hit) ? n / 2 : n, o);
    DONE(hit);
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(pwrite64);
    if (!inside_fd(fd)) return real(fd, b, n, o);
    int hit = last_op();
    FAIL(hit);
    ssize_t r = real(fd, b, HALF(hit) ? n / 2 : n, o);
    DONE(hit);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(writev);
    if (!inside_fd(fd)) return real(fd, v, n);
    int hit = last_op();
    FAIL(hit);
    ssize_t r = real(fd, v, HALF(hit) ? n / 2 : n);
    DONE(hit);
    return r;
}
int ftruncate(int fd, off_t n) {
    REAL(ftruncate);
    if (!inside_fd(fd)) return real(fd, n);
    int hit = last_op();
    FAIL(hit);
    int r = real(fd, n);
    DONE(hit);
    return r;
}
int ftruncate64(int fd, off64_t n) {
    REAL(ftruncate64);
    if (!inside_fd(fd)) return real(fd, n);
    int hit = last_op();
    FAIL(hit);
    int r = real(fd, n);
    DONE(hit);
    return r;
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    REAL(copy_file_range);
    if (!inside_fd(b)) return real(a, ao, b, bo, n, f);
    int hit = last_op();
    FAIL(hit);
    if (HALF(hit)) {
        struct stat st;
        if (!fstat(a, &st) && (off_t)n > st.st_size) n = st.st_size;
        n /= 2;
    }
    ssize_t r = n ? real(a, ao, b, bo, n, f) : 0;
    DONE(hit);
    return r;
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    static ssize_t (*real)(int, int, off64_t *, size_t);
    if (!real) real = (ssize_t(*)(int, int, off64_t *, size_t))dlsym(RTLD_NEXT, "sendfile64");
    if (!inside_fd(out)) return real(out, in, o, n);
    int hit = last_op();
    FAIL(hit);
    ssize_t r = real(out, in, o, HALF(hit) ? n / 2 : n);
    DONE(hit);
    return r;
}
int rename(const char *a, const char *b) {
    REAL(rename);
    if (!inside(b) && !inside(a)) return real(a, b);
    int hit = last_op();
    FAIL(hit);
    int r = real(a, b);
    DONE(hit);
    return r;
}
int unlink(const char *a) {
    REAL(unlink);
    if (!inside(a)) return real(a);
    int hit = last_op();
    FAIL(hit);
    int r = real(a);
    DONE(hit);
    return r;
}
int unlinkat(int d, const char *a, int f) {
    REAL(unlinkat);
    if (!inside_at(d, a)) return real(d, a, f);
    int hit = last_op();
    FAIL(hit);
    int r = real(d, a, f);
    DONE(hit);
    return r;
}
int rmdir(const char *a) {
    REAL(rmdir);
    if (!inside(a)) return real(a);
    int hit = last_op();
    FAIL(hit);
    int r = real(a);
    DONE(hit);
    return r;
}
int mkdir(const char *a, mode_t m) {
    REAL(mkdir);
    if (!inside(a)) return real(a, m);
    int hit = last_op();
    FAIL(hit);
    int r = real(a, m);
    DONE(hit);
    return r;
}
#define OPEN(name, call) \
    int hit = inside(p) && (f & (O_TRUNC | O_CREAT)) ? last_op() : 0; \
    FAIL(hit); \
    int r = call; \
    DONE(hit); \
    return r
#define MODE \
    mode_t m = 0; \
    if (f & (O_CREAT | O_TMPFILE)) { \
        va_list ap; \
        va_start(ap, f); \
        m = va_arg(ap, mode_t); \
        va_end(ap); \
    }
int open(const char *p, int f, ...) {
    MODE
    static int (*real)(const char *, int, ...);
    if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open");
    OPEN(open, real(p, f, m));
}
int open64(const char *p, int f, ...) {
    MODE
    static int (*real)(const char *, int, ...);
    if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64");
    OPEN(open64, real(p, f, m));
}

// Syncing can fail, but is not a point of its own to end the process at.
static int sync_fails(int fd) {
    if (kill_mode != 3 && kill_mode != 4) return 0;
    return inside_fd(fd) && last_op() == 2;
}
int fsync(int fd) {
    REAL(fsync);
    if (sync_fails(fd)) { errno = EIO; return -1; }
    return real(fd);
}
int fdatasync(int fd) {
    REAL(fdatasync);
    if (sync_fails(fd)) { errno = EIO; return -1; }
    return real(fd);
}
int sync_file_range(int fd, off64_t o, off64_t n, unsigned f) {
    static int (*real)(int, off64_t, off64_t, unsigned);
    if (!real) real = (int (*)(int, off64_t, off64_t, unsigned))dlsym(RTLD_NEXT, "sync_file_range");
    if (sync_fails(fd)) { errno = EIO; return -1; }
    return real(fd, o, n, f);
}
