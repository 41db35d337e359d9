// Fault injection for /repo's command-line programs (LD_PRELOAD).
// VH_FILE: the file whose reads are affected; VH_READ / VH_WRITE: what
// happens to the successive reads of it and writes to standard output:
//   n normal, s<k> at most k bytes, i interrupted (EINTR), e<errno> an error
// After the end of a plan: normal. One letter per injected event is appended
// to VH_LOG.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static const char *rplan, *wplan;
static int ready;

static void setup(void) {
    if (ready) return;
    ready = 1;
    rplan = getenv("VH_READ");
    wplan = getenv("VH_WRITE");
    if (!rplan) rplan = "";
    if (!wplan) wplan = "";
}

static void note(const char *s) {
    const char *log = getenv("VH_LOG");
    if (!log) return;
    int e = errno;
    int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_APPEND | O_CREAT, 0600);
    if (fd >= 0) {
        syscall(SYS_write, fd, s, strlen(s));
        syscall(SYS_close, fd);
    }
    errno = e;
}

static int is_target(int fd) {
    const char *want = getenv("VH_FILE");
    char link[64], path[PATH_MAX];
    if (!want) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    int e = errno;
    ssize_t n = readlink(link, path, sizeof path - 1);
    errno = e;
    if (n < 0) return 0;
    path[n] = 0;
    return strcmp(path, want) == 0;
}

// takes one step of a plan: 0 proceed (with *cap), -1 fail with errno set
static int step(const char **plan, size_t *cap, int reading) {
    const char *p = *plan;
    if (!*p) return 0;
    char op = *p++;
    long v = strtol(p, (char **)&p, 10);
    if (*p == ',') p++;
    *plan = p;
    switch (op) {
        case 's':
            if (*cap > (size_t)v) *cap = v;
            note(reading ? "s" : "S");
            return 0;
        case 'i':
            note(reading ? "i" : "I");
            errno = EINTR;
            return -1;
        case 'e':
            note(reading ? "e" : "E");
            errno = v;
            return -1;
    }
    return 0;
}

ssize_t read(int fd, void *buf, size_t n) {
    setup();
    if (n && *rplan && is_target(fd) && step(&rplan, &n, 1) < 0) return -1;
    return syscall(SYS_read, fd, buf, n);
}

ssize_t readv(int fd, const struct iovec *v, int k) {
    setup();
    if (k > 0 && *rplan && is_target(fd)) {
        size_t n = v[0].iov_len;
        if (n && step(&rplan, &n, 1) < 0) return -1;
        return syscall(SYS_read, fd, v[0].iov_base, n);
    }
    return syscall(SYS_readv, fd, v, k);
}

ssize_t write(int fd, const void *buf, size_t n) {
    setup();
    if (fd == 1 && n && *wplan && step(&wplan, &n, 0) < 0) return -1;
    return syscall(SYS_write, fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *v, int k) {
    setup();
    if (fd == 1 && k > 0 && *wplan) {
        int i = 0;
        while (i + 1 < k && v[i].iov_len == 0) i++;
        return write(fd, v[i].iov_base, v[i].iov_len);
    }
    return syscall(SYS_writev, fd, v, k);
}
