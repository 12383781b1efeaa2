/*
 * LD_PRELOAD library putting a program's environment under the control of the model checker:
 *
 *  - file-system calls on paths below PFPMC_ROOT are numbered ("points") and logged, can be made to
 *    fail, be cut short or be the place where the process dies (PFPMC_PLAN), and can be scheduled by
 *    a controller (PFPMC_SCHED_FD);
 *  - getpid() yields PFPMC_PID;
 *  - getrandom() yields a deterministic stream (PFPMC_SEED);
 *  - reads from standard input through libc return at most one line, so that scripted input can be
 *    written in advance; PFPMC_MARK=1 prints a marker to stdout and stderr at each of them.
 *
 * PFPMC_PLAN: semicolon separated list of <point>:<action>, with actions
 *    K        die before the operation
 *    T<n>     (write) die after n bytes were written
 *    E<errno> fail with errno
 *    S<n>     (write) write only n bytes and report that
 *    F<errno> fail this and every following modifying operation with errno
 *    N<errno> fail this and every following operation of the same name with errno
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 1024
static char tracked[MAXFD]; /* 1: below root */
static char writable[MAXFD];
static char root[PATH_MAX];
static size_t root_len;
static int log_env;
static int log_fd = -1, sched_fd = -1;
static int point_no;
static int in_shim;
static int mark;
static int have_seed;
static uint64_t seed_state;
static char plan[4096];
static int fail_all; /* errno for all following modifying operations */
static char fail_name[64]; /* operations to fail */
static int fail_name_errno;

static long (*real_syscall)(long, ...);
#define RAW(...) real_syscall(__VA_ARGS__)

static void init(void)
{
    static int done;
    if (done)
        return;
    done = 1;
    real_syscall = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
    const char *v = getenv("PFPMC_ROOT");
    if (v && *v) {
        strncpy(root, v, sizeof root - 1);
        root_len = strlen(root);
    }
    if ((v = getenv("PFPMC_PLAN")))
        strncpy(plan, v, sizeof plan - 1);
    if ((v = getenv("PFPMC_LOG"))) {
        int fd = RAW(SYS_openat, AT_FDCWD, v, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
        if (fd >= 0) {
            log_fd = RAW(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
            RAW(SYS_close, fd);
        }
    }
    log_env = getenv("PFPMC_LOG_ENV") != NULL;
    if ((v = getenv("PFPMC_SCHED_FD")))
        sched_fd = atoi(v);
    if ((v = getenv("PFPMC_MARK")))
        mark = atoi(v);
    if ((v = getenv("PFPMC_SEED"))) {
        have_seed = 1;
        seed_state = strtoull(v, NULL, 0);
    }
}

__attribute__((constructor)) static void ctor(void)
{
    init();
    if (getenv("PFPMC_LIMIT")) {
        /* A run that doesn't end or writes without limit is ended by a signal. */
        struct rlimit cpu = { 20, 20 }, size = { 64 << 20, 64 << 20 }, core = { 0, 0 };
        setrlimit(RLIMIT_CPU, &cpu);
        setrlimit(RLIMIT_FSIZE, &size);
        setrlimit(RLIMIT_CORE, &core);
        alarm(atoi(getenv("PFPMC_LIMIT")));
    }
}

static uint64_t next_rand(void)
{
    uint64_t z = (seed_state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static void fill_random(void *buf, size_t n)
{
    unsigned char *p = buf;
    while (n) {
        uint64_t v = next_rand();
        size_t k = n < 8 ? n : 8;
        memcpy(p, &v, k);
        p += k;
        n -= k;
    }
}

ssize_t getrandom(void *buf, size_t n, unsigned int flags)
{
    init();
    if (!have_seed)
        return RAW(SYS_getrandom, buf, n, flags);
    fill_random(buf, n);
    return n;
}

/* Process identifiers may well be the same in different containers or after a reboot. */
pid_t getpid(void)
{
    init();
    static int fixed = -1;
    if (fixed < 0) {
        const char *v = getenv("PFPMC_PID");
        fixed = v ? atoi(v) : 0;
    }
    return fixed ? fixed : RAW(SYS_getpid);
}

int getentropy(void *buf, size_t n)
{
    return getrandom(buf, n, 0) < 0 ? -1 : 0;
}

long syscall(long number, ...)
{
    init();
    va_list ap;
    long a[6];
    va_start(ap, number);
    for (int i = 0; i < 6; i++)
        a[i] = va_arg(ap, long);
    va_end(ap);
    if (number == SYS_getrandom && have_seed) {
        fill_random((void *)a[0], a[1]);
        return a[1];
    }
    return RAW(number, a[0], a[1], a[2], a[3], a[4], a[5]);
}

/* ---- logging ---- */

static void raw_out(int fd, const char *s, size_t n)
{
    while (n > 0) {
        long r = RAW(SYS_write, fd, s, n);
        if (r <= 0)
            return;
        s += r;
        n -= r;
    }
}

static void logf_(const char *fmt, ...)
{
    if (log_fd < 0)
        return;
    char buf[3 * PATH_MAX];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf)
        n = sizeof buf;
    raw_out(log_fd, buf, n);
}

/* Logs inode number and complete contents of a file. */
static void log_content(int fd)
{
    if (log_fd < 0)
        return;
    struct stat st;
    if (fstat(fd, &st) != 0)
        return;
    char path[64];
    snprintf(path, sizeof path, "/proc/self/fd/%d", fd);
    int rd = RAW(SYS_openat, AT_FDCWD, path, O_RDONLY | O_CLOEXEC, 0);
    logf_("DATA %lu ", (unsigned long)st.st_ino);
    if (rd >= 0) {
        unsigned char buf[2048];
        char hex[4096];
        long r;
        while ((r = RAW(SYS_read, rd, buf, sizeof buf)) > 0) {
            for (long i = 0; i < r; i++) {
                hex[2 * i] = "0123456789abcdef"[buf[i] >> 4];
                hex[2 * i + 1] = "0123456789abcdef"[buf[i] & 15];
            }
            raw_out(log_fd, hex, 2 * r);
        }
        RAW(SYS_close, rd);
    }
    logf_("\n");
}

/* ---- paths ---- */

static int below_root(int dirfd, const char *path, char *out)
{
    init();
    if (!root_len || !path || in_shim)
        return 0;
    char tmp[2 * PATH_MAX];
    if (path[0] == '/') {
        snprintf(tmp, sizeof tmp, "%s", path);
    } else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) {
            if (!getcwd(base, sizeof base))
                return 0;
        } else {
            char link[64];
            snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(link, base, sizeof base - 1);
            if (n < 0)
                return 0;
            base[n] = 0;
        }
        snprintf(tmp, sizeof tmp, "%s/%s", base, path);
    }
    if (strncmp(tmp, root, root_len) != 0 || (tmp[root_len] != '/' && tmp[root_len] != 0))
        return 0;
    if (out) {
        size_t off = root_len;
        while (tmp[off] == '/')
            off++;
        snprintf(out, PATH_MAX, "%s", tmp + off);
    }
    return 1;
}

/* ---- points ---- */

enum { RD, WR };

/* Announces an operation. Returns 0 to go on, -1 to fail with errno. *limit: bytes to write. */
static int point(int kind, const char *name, const char *p1, const char *p2, long *limit, int *die)
{
    int no = point_no++;
    if (sched_fd >= 0) {
        char msg[3 * PATH_MAX];
        int n = snprintf(msg, sizeof msg, "%c %s %s %s\n", kind == WR ? 'W' : 'R', name, p1, p2 ? p2 : "-");
        raw_out(sched_fd, msg, n);
        char go = 0;
        long r;
        do {
            r = RAW(SYS_read, sched_fd, &go, 1);
        } while (r < 0 && errno == EINTR);
        if (r != 1 || go == 'K')
            RAW(SYS_exit_group, 137);
    }
    logf_("OP %d %s %s %s %s %ld\n", no, kind == WR ? "W" : "R", name, p1, p2 ? p2 : "-", limit ? *limit : -1);
    if (fail_all && kind == WR) {
        errno = fail_all;
        return -1;
    }
    if (fail_name_errno && strcmp(fail_name, name) == 0) {
        errno = fail_name_errno;
        return -1;
    }
    const char *s = plan;
    while (*s) {
        char *end;
        long k = strtol(s, &end, 10);
        if (end == s || *end != ':')
            break;
        char action = end[1];
        long arg = strtol(end + 2, &end, 10);
        if (k == no) {
            logf_("PLAN %c %ld\n", action, arg);
            switch (action) {
            case 'K':
                RAW(SYS_exit_group, 137);
                break;
            case 'T':
                if (limit && arg < *limit)
                    *limit = arg;
                if (die)
                    *die = 1;
                break;
            case 'S':
                if (limit && arg < *limit)
                    *limit = arg;
                break;
            case 'F':
                if (kind == WR)
                    fail_all = arg;
                errno = arg;
                return -1;
            case 'N':
                snprintf(fail_name, sizeof fail_name, "%s", name);
                fail_name_errno = arg;
                errno = arg;
                return -1;
            case 'E':
                errno = arg;
                return -1;
            }
        }
        s = *end == ';' ? end + 1 : end;
        if (*s == 0)
            break;
    }
    return 0;
}

#define REAL(name) \
    static __typeof__(&name) real; \
    if (!real) \
        real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

/* ---- intercepted functions ---- */

/* Notes which environment variables are asked for. */
char *getenv(const char *name)
{
    extern char **environ;
    size_t n = strlen(name);
    if (log_env && strncmp(name, "PFPMC_", 6) != 0)
        logf_("ENV %s\n", name);
    for (char **e = environ; e && *e; e++) {
        if (strncmp(*e, name, n) == 0 && (*e)[n] == '=')
            return *e + n + 1;
    }
    return NULL;
}

char *secure_getenv(const char *name)
{
    return getenv(name);
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    char rel[PATH_MAX];
    int below = below_root(dirfd, path, rel);
    if (below) {
        int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
        int modifies = (flags & (O_CREAT | O_TRUNC)) != 0;
        char name[64];
        snprintf(name, sizeof name, "open%s%s%s%s", wr ? "w" : "r", flags & O_CREAT ? "+creat" : "",
            flags & O_EXCL ? "+excl" : "", flags & O_TRUNC ? "+trunc" : "");
        if (point(modifies ? WR : RD, name, rel, NULL, NULL, NULL) < 0)
            return -1;
        int existed = RAW(SYS_faccessat, dirfd, path, F_OK, 0) == 0;
        int fd = RAW(SYS_openat, dirfd, path, flags, mode);
        if (fd >= 0 && fd < MAXFD) {
            tracked[fd] = 1;
            writable[fd] = wr;
            struct stat st;
            if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode) && modifies) {
                if (!existed)
                    logf_("CREATE %s %lu\n", rel, (unsigned long)st.st_ino);
                log_content(fd);
            } else if (S_ISDIR(st.st_mode)) {
                tracked[fd] = 2;
            }
        }
        return fd;
    }
    int fd = RAW(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD)
        tracked[fd] = 0;
    if (fd >= 0 && root_len && ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT)) && strncmp(path, "/dev/", 5) && strncmp(path, "/proc/", 6))
        logf_("OUTSIDE %s\n", path);
    return fd;
}

#define GET_MODE \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; \
        va_start(ap, flags); \
        mode = va_arg(ap, mode_t); \
        va_end(ap); \
    }

int open(const char *path, int flags, ...) { init(); GET_MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { init(); GET_MODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { init(); GET_MODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { init(); GET_MODE return do_open(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { init(); return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return creat(path, mode); }

int close(int fd)
{
    init();
    if (fd >= 0 && fd < MAXFD)
        tracked[fd] = 0;
    return RAW(SYS_close, fd);
}

static int is_tracked(int fd)
{
    return root_len && fd >= 0 && fd < MAXFD && tracked[fd];
}

static void fd_name(int fd, char *out)
{
    char link[64], path[PATH_MAX];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, path, sizeof path - 1);
    if (n < 0)
        n = 0;
    path[n] = 0;
    size_t off = 0;
    if (strncmp(path, root, root_len) == 0) {
        off = root_len;
        while (path[off] == '/')
            off++;
    }
    snprintf(out, PATH_MAX, "%s", path[off] ? path + off : ".");
}

static ssize_t do_write(int fd, const void *buf, size_t n, off_t off)
{
    init();
    if (is_tracked(fd)) {
        char rel[PATH_MAX];
        fd_name(fd, rel);
        long limit = n;
        int die = 0;
        if (point(WR, "write", rel, NULL, &limit, &die) < 0)
            return -1;
        ssize_t r = limit == 0 && n > 0 ? 0
            : off >= 0 ? RAW(SYS_pwrite64, fd, buf, limit, off)
                       : RAW(SYS_write, fd, buf, limit);
        if (die)
            RAW(SYS_exit_group, 137);
        log_content(fd);
        return r;
    }
    return off >= 0 ? RAW(SYS_pwrite64, fd, buf, n, off) : RAW(SYS_write, fd, buf, n);
}

ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, -1); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return do_write(fd, buf, n, off); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) { return do_write(fd, buf, n, off); }

ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    init();
    if (is_tracked(fd)) {
        for (int i = 0; i < cnt; i++)
            if (iov[i].iov_len)
                return do_write(fd, iov[i].iov_base, iov[i].iov_len, -1);
        return 0;
    }
    return RAW(SYS_writev, fd, iov, cnt);
}

ssize_t read(int fd, void *buf, size_t n)
{
    init();
    if (fd == 0) {
        if (mark && n > 1) { /* reads of single bytes are prompts for secrets */
            raw_out(1, "\x1e", 1);
            raw_out(2, "\x1e", 1);
        }
        unsigned char *p = buf;
        size_t done = 0;
        while (done < n) {
            long r = RAW(SYS_read, 0, p + done, 1);
            if (r < 0 && done == 0)
                return -1;
            if (r <= 0)
                break;
            done++;
            if (p[done - 1] == '\n')
                break;
        }
        return done;
    }
    if (is_tracked(fd)) {
        char rel[PATH_MAX];
        fd_name(fd, rel);
        long limit = n;
        if (point(RD, "read", rel, NULL, &limit, NULL) < 0)
            return -1;
        return RAW(SYS_read, fd, buf, limit);
    }
    return RAW(SYS_read, fd, buf, n);
}

static int simple_fd(int kind, const char *name, int fd)
{
    char rel[PATH_MAX];
    fd_name(fd, rel);
    return point(kind, name, rel, NULL, NULL, NULL);
}

static void log_sync(int fd)
{
    struct stat st;
    if (fstat(fd, &st) == 0)
        logf_("SYNC %lu %d\n", (unsigned long)st.st_ino, S_ISDIR(st.st_mode) ? 1 : 0);
}

int fsync(int fd)
{
    init();
    if (is_tracked(fd) && simple_fd(WR, "fsync", fd) < 0)
        return -1;
    int r = RAW(SYS_fsync, fd);
    if (is_tracked(fd) && r == 0)
        log_sync(fd);
    return r;
}

int fdatasync(int fd)
{
    init();
    if (is_tracked(fd) && simple_fd(WR, "fdatasync", fd) < 0)
        return -1;
    int r = RAW(SYS_fdatasync, fd);
    if (is_tracked(fd) && r == 0)
        log_sync(fd);
    return r;
}

int ftruncate(int fd, off_t len)
{
    init();
    if (is_tracked(fd) && simple_fd(WR, "ftruncate", fd) < 0)
        return -1;
    int r = RAW(SYS_ftruncate, fd, len);
    if (is_tracked(fd))
        log_content(fd);
    return r;
}
int ftruncate64(int fd, off64_t len) { return ftruncate(fd, len); }

int fchmod(int fd, mode_t mode)
{
    init();
    if (is_tracked(fd) && simple_fd(WR, "fchmod", fd) < 0)
        return -1;
    return RAW(SYS_fchmod, fd, mode);
}

int fchown(int fd, uid_t uid, gid_t gid)
{
    init();
    if (is_tracked(fd) && simple_fd(WR, "fchown", fd) < 0)
        return -1;
    return RAW(SYS_fchown, fd, uid, gid);
}

int flock(int fd, int op)
{
    init();
    if (!is_tracked(fd))
        return RAW(SYS_flock, fd, op);
    const char *name = "flock";
    for (;;) {
        if (simple_fd(RD, name, fd) < 0)
            return -1;
        /* The controller has to know when a process is waiting for another one. */
        int r = RAW(SYS_flock, fd, sched_fd >= 0 ? op | LOCK_NB : op);
        if (r == 0 || sched_fd < 0 || errno != EWOULDBLOCK || (op & LOCK_NB))
            return r;
        name = "flock-blocked";
    }
}

/* Looking at files by name, what is found may change before the file is used. */
static int looked_at(int d, const char *path, const char *name)
{
    char rel[PATH_MAX];
    if (path && *path && below_root(d, path, rel))
        return point(RD, name, rel, NULL, NULL, NULL);
    return 0;
}

int statx(int d, const char *restrict path, int flags, unsigned mask, struct statx *restrict buf)
{
    init();
    return looked_at(d, path, "stat") < 0 ? -1 : RAW(SYS_statx, d, path, flags, mask, buf);
}
int fstatat(int d, const char *restrict path, struct stat *restrict buf, int flags)
{
    init();
    return looked_at(d, path, "stat") < 0 ? -1 : RAW(SYS_newfstatat, d, path, buf, flags);
}
int fstatat64(int d, const char *restrict path, struct stat64 *restrict buf, int flags)
{
    return fstatat(d, path, (struct stat *)buf, flags);
}
int stat(const char *restrict path, struct stat *restrict buf) { return fstatat(AT_FDCWD, path, buf, 0); }
int stat64(const char *restrict path, struct stat64 *restrict buf) { return fstatat(AT_FDCWD, path, (struct stat *)buf, 0); }
int lstat(const char *restrict path, struct stat *restrict buf) { return fstatat(AT_FDCWD, path, buf, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *restrict path, struct stat64 *restrict buf) { return fstatat(AT_FDCWD, path, (struct stat *)buf, AT_SYMLINK_NOFOLLOW); }
int faccessat(int d, const char *path, int mode, int flags)
{
    init();
    (void)flags;
    return looked_at(d, path, "access") < 0 ? -1 : RAW(SYS_faccessat, d, path, mode);
}
int access(const char *path, int mode) { return faccessat(AT_FDCWD, path, mode, 0); }
char *realpath(const char *restrict path, char *restrict out)
{
    init();
    if (looked_at(AT_FDCWD, path, "realpath") < 0)
        return NULL;
    static char *(*real)(const char *restrict, char *restrict);
    if (!real)
        real = (char *(*)(const char *restrict, char *restrict))dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3");
    return real(path, out);
}
ssize_t readlinkat(int d, const char *restrict path, char *restrict buf, size_t n)
{
    init();
    return looked_at(d, path, "readlink") < 0 ? -1 : RAW(SYS_readlinkat, d, path, buf, n);
}
ssize_t readlink(const char *restrict path, char *restrict buf, size_t n) { return readlinkat(AT_FDCWD, path, buf, n); }

int renameat2(int d1, const char *a, int d2, const char *b, unsigned flags)
{
    char ra[PATH_MAX] = "?", rb[PATH_MAX] = "?";
    int t = below_root(d1, a, ra) | below_root(d2, b, rb);
    if (t && point(WR, "rename", ra, rb, NULL, NULL) < 0)
        return -1;
    int r = RAW(SYS_renameat2, d1, a, d2, b, flags);
    if (t && r == 0)
        logf_("RENAME %s %s\n", ra, rb);
    return r;
}
int rename(const char *a, const char *b) { return renameat2(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return renameat2(d1, a, d2, b, 0); }

int unlinkat(int d, const char *path, int flags)
{
    char rel[PATH_MAX];
    int t = below_root(d, path, rel);
    if (t && point(WR, "unlink", rel, NULL, NULL, NULL) < 0)
        return -1;
    int r = RAW(SYS_unlinkat, d, path, flags);
    if (t && r == 0)
        logf_("UNLINK %s\n", rel);
    return r;
}
int unlink(const char *path) { return unlinkat(AT_FDCWD, path, 0); }
int remove(const char *path) { return unlinkat(AT_FDCWD, path, 0); }
int rmdir(const char *path) { return unlinkat(AT_FDCWD, path, AT_REMOVEDIR); }

int linkat(int d1, const char *a, int d2, const char *b, int flags)
{
    char ra[PATH_MAX] = "?", rb[PATH_MAX] = "?";
    int t = below_root(d1, a, ra) | below_root(d2, b, rb);
    if (t && point(WR, "link", ra, rb, NULL, NULL) < 0)
        return -1;
    int r = RAW(SYS_linkat, d1, a, d2, b, flags);
    if (t && r == 0)
        logf_("LINK %s %s\n", ra, rb);
    return r;
}
int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }

int symlinkat(const char *a, int d, const char *b)
{
    char rel[PATH_MAX];
    if (below_root(d, b, rel) && point(WR, "symlink", rel, NULL, NULL, NULL) < 0)
        return -1;
    return RAW(SYS_symlinkat, a, d, b);
}
int symlink(const char *a, const char *b) { return symlinkat(a, AT_FDCWD, b); }

int mkdirat(int d, const char *path, mode_t mode)
{
    char rel[PATH_MAX];
    if (below_root(d, path, rel) && point(WR, "mkdir", rel, NULL, NULL, NULL) < 0)
        return -1;
    return RAW(SYS_mkdirat, d, path, mode);
}
int mkdir(const char *path, mode_t mode) { return mkdirat(AT_FDCWD, path, mode); }

int fchmodat(int d, const char *path, mode_t mode, int flags)
{
    char rel[PATH_MAX];
    if (below_root(d, path, rel) && point(WR, "chmod", rel, NULL, NULL, NULL) < 0)
        return -1;
    (void)flags;
    return RAW(SYS_fchmodat, d, path, mode);
}
int fchownat(int d, const char *path, uid_t uid, gid_t gid, int flags)
{
    char rel[PATH_MAX];
    if (below_root(d, path, rel) && point(WR, "chown", rel, NULL, NULL, NULL) < 0)
        return -1;
    return RAW(SYS_fchownat, d, path, uid, gid, flags);
}
int chown(const char *path, uid_t uid, gid_t gid) { return fchownat(AT_FDCWD, path, uid, gid, 0); }
int lchown(const char *path, uid_t uid, gid_t gid) { return fchownat(AT_FDCWD, path, uid, gid, AT_SYMLINK_NOFOLLOW); }

int chmod(const char *path, mode_t mode) { return fchmodat(AT_FDCWD, path, mode, 0); }

ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned flags)
{
    init();
    if (is_tracked(out) && simple_fd(WR, "copy", out) < 0)
        return -1;
    ssize_t r = RAW(SYS_copy_file_range, in, oi, out, oo, n, flags);
    if (is_tracked(out))
        log_content(out);
    return r;
}

ssize_t sendfile64(int out, int in, off64_t *off, size_t n)
{
    init();
    if (is_tracked(out) && simple_fd(WR, "copy", out) < 0)
        return -1;
    ssize_t r = RAW(SYS_sendfile, out, in, off, n);
    if (is_tracked(out))
        log_content(out);
    return r;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, off, n); }
