/* Counts the file system calls of this process while armed, and ends the
 * process or fails a call at a chosen point. Dormant until iofault_arm(). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int armed = 0, mode = 0, err = ENOSPC;
static long count = 0, target = -1;
enum { COUNT = 0, KILL_BEFORE = 1, KILL_AFTER = 2, TORN = 3, FAIL_ONCE = 4, FAIL_FROM = 5 };

void iofault_arm(int m, long k, int e) { mode = m; target = k; err = e; count = 0; armed = 1; }
long iofault_disarm(void) { armed = 0; return count; }

#define REAL(name) static __typeof__(name) *real = 0; \
    if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

/* returns 1 if the call has to fail; 2 if a write has to be torn */
static int before(int can_fail) {
    if (!armed) return 0;
    count++;
    if (count == target) {
        if (mode == KILL_BEFORE) _exit(77);
        if (mode == TORN) return 2;
        if (mode == FAIL_ONCE && can_fail) { errno = err; return 1; }
    }
    if (mode == FAIL_FROM && count >= target && can_fail) { errno = err; return 1; }
    return 0;
}
static void after(void) {
    if (armed && count == target && (mode == KILL_AFTER || mode == TORN)) _exit(77);
}

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(write); int b = before(1); if (b == 1) return -1;
    ssize_t r = real(fd, buf, b == 2 ? n / 2 : n); after(); return r;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) {
    REAL(pwrite); int b = before(1); if (b == 1) return -1;
    ssize_t r = real(fd, buf, b == 2 ? n / 2 : n, o); after(); return r;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    REAL(pwrite64); int b = before(1); if (b == 1) return -1;
    ssize_t r = real(fd, buf, b == 2 ? n / 2 : n, o); after(); return r;
}
int ftruncate(int fd, off_t n) {
    REAL(ftruncate); if (before(1) == 1) return -1; int r = real(fd, n); after(); return r;
}
int ftruncate64(int fd, off64_t n) {
    REAL(ftruncate64); if (before(1) == 1) return -1; int r = real(fd, n); after(); return r;
}
int rename(const char *a, const char *b) {
    REAL(rename); if (before(1) == 1) return -1; int r = real(a, b); after(); return r;
}
int renameat(int x, const char *a, int y, const char *b) {
    REAL(renameat); if (before(1) == 1) return -1; int r = real(x, a, y, b); after(); return r;
}
/* removing works even on a full disk */
int unlink(const char *a) {
    REAL(unlink); before(0); int r = real(a); after(); return r;
}
int unlinkat(int d, const char *a, int f) {
    REAL(unlinkat); before(0); int r = real(d, a, f); after(); return r;
}
int fsync(int fd) { REAL(fsync); if (before(1) == 1) return -1; int r = real(fd); after(); return r; }
int link(const char *a, const char *b) {
    REAL(link); if (before(1) == 1) return -1; int r = real(a, b); after(); return r;
}
#define OPEN(name) \
int name(const char *path, int flags, ...) { \
    REAL(name); mode_t m = 0; \
    if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if ((flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) == 0) return real(path, flags, m); \
    if (before(1) == 1) return -1; \
    int r = real(path, flags, m); after(); return r; }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
int name(int d, const char *path, int flags, ...) { \
    REAL(name); mode_t m = 0; \
    if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if ((flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) == 0) return real(d, path, flags, m); \
    if (before(1) == 1) return -1; \
    int r = real(d, path, flags, m); after(); return r; }
OPENAT(openat)
OPENAT(openat64)
