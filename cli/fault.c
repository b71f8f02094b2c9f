#include <stddef.h>
/* Preloaded into the indexer: lets the process die, or a call fail, at the RT_STEP-th call that changes the file system. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static long at, left;
static int how; /* k: die before it, h: die half-way through it, s: do only half, i: EIO, n: ENOSPC, a: EACCES */

__attribute__((constructor)) static void begin(void) {
    const char *s = getenv("RT_STEP"), *h = getenv("RT_HOW");
    left = s ? atol(s) : 0;
    how = h ? h[0] : 'k';
}

static void note(const char *what) {
    const char *to = getenv("RT_NOTE");
    int fd = to ? (int)syscall(SYS_openat, AT_FDCWD, to, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644) : -1;
    if (fd >= 0) {
        syscall(SYS_write, fd, what, strlen(what));
        syscall(SYS_close, fd);
    }
}

static void die(void) {
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;)
        pause();
}

/* 0: go on, 1: fail with errno set, 2: do half and then, if dying, die */
static int step(const char *what, int partial) {
    if (left == 0 || __sync_add_and_fetch(&at, 1) != left)
        return 0;
    note(what);
    switch (how) {
    case 'i': errno = EIO; return 1;
    case 'n': errno = ENOSPC; return 1;
    case 'a': errno = EACCES; return 1;
    case 'h':
    case 's':
        if (partial)
            return 2;
        if (how == 's')
            return 0;
        /* fall through */
    default: die(); return 1;
    }
}

#define NEXT(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))
#define CHANGES(flags) ((flags) & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))

#define OPEN(name)                                                                                   \
    int name(const char *path, int flags, ...) {                                                     \
        va_list ap;                                                                                  \
        va_start(ap, flags);                                                                         \
        mode_t mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, mode_t) : 0;                        \
        va_end(ap);                                                                                  \
        if (CHANGES(flags) && step("open", 0))                                                       \
            return -1;                                                                               \
        return NEXT(name)(path, flags, mode);                                                        \
    }
OPEN(open)
OPEN(open64)
#define OPENAT(name)                                                                                 \
    int name(int dir, const char *path, int flags, ...) {                                            \
        va_list ap;                                                                                  \
        va_start(ap, flags);                                                                         \
        mode_t mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, mode_t) : 0;                        \
        va_end(ap);                                                                                  \
        if (CHANGES(flags) && step("open", 0))                                                       \
            return -1;                                                                               \
        return NEXT(name)(dir, path, flags, mode);                                                   \
    }
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void *data, size_t size) {
    if (fd > 2)
        switch (step("write", size > 1)) {
        case 1: return -1;
        case 2: {
            ssize_t n = syscall(SYS_write, fd, data, size / 2);
            if (how == 'h')
                die();
            return n;
        }
        }
    return syscall(SYS_write, fd, data, size);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (fd > 2)
        switch (step("write", n > 1)) {
        case 1: return -1;
        case 2: {
            ssize_t done = syscall(SYS_writev, fd, v, n / 2);
            if (how == 'h')
                die();
            return done;
        }
        }
    return syscall(SYS_writev, fd, v, n);
}
#define PWRITE(name)                                                                                 \
    ssize_t name(int fd, const void *data, size_t size, __typeof__((off_t)0) off) {                  \
        switch (step("write", size > 1)) {                                                           \
        case 1: return -1;                                                                           \
        case 2: {                                                                                    \
            ssize_t n = NEXT(name)(fd, data, size / 2, off);                                         \
            if (how == 'h')                                                                          \
                die();                                                                               \
            return n;                                                                                \
        }                                                                                            \
        }                                                                                            \
        return NEXT(name)(fd, data, size, off);                                                      \
    }
PWRITE(pwrite)
PWRITE(pwrite64)

#define CALL(name, params, args)                                                                     \
    int name params {                                                                                \
        if (step(#name, 0))                                                                          \
            return -1;                                                                               \
        return NEXT(name) args;                                                                      \
    }
CALL(rename, (const char *a, const char *b), (a, b))
CALL(renameat, (int d, const char *a, int e, const char *b), (d, a, e, b))
CALL(renameat2, (int d, const char *a, int e, const char *b, unsigned f), (d, a, e, b, f))
CALL(unlink, (const char *a), (a))
CALL(unlinkat, (int d, const char *a, int f), (d, a, f))
CALL(link, (const char *a, const char *b), (a, b))
CALL(linkat, (int d, const char *a, int e, const char *b, int f), (d, a, e, b, f))
CALL(symlink, (const char *a, const char *b), (a, b))
CALL(mkdir, (const char *a, mode_t m), (a, m))
CALL(rmdir, (const char *a), (a))
CALL(truncate, (const char *a, off_t n), (a, n))
CALL(truncate64, (const char *a, off64_t n), (a, n))
CALL(ftruncate, (int fd, off_t n), (fd, n))
CALL(ftruncate64, (int fd, off64_t n), (fd, n))
CALL(fallocate, (int fd, int m, off_t a, off_t n), (fd, m, a, n))
CALL(fsync, (int fd), (fd))
CALL(fdatasync, (int fd), (fd))
CALL(fchmod, (int fd, mode_t m), (fd, m))
CALL(chmod, (const char *a, mode_t m), (a, m))
ssize_t copy_file_range(int in, off64_t *a, int out, off64_t *b, size_t n, unsigned f) {
    return step("copy_file_range", 0) ? -1 : NEXT(copy_file_range)(in, a, out, b, n, f);
}
ssize_t sendfile64(int out, int in, off64_t *a, size_t n) {
    return step("sendfile", 0) ? -1 : NEXT(sendfile64)(out, in, a, n);
}
