/*
 * LD_PRELOAD library checking that no heap memory holds a secret at certain moments.
 *
 * Heap memory is handed out by a bump allocator which never reuses anything (reallocating always
 * moves), so that whatever a program leaves behind in released memory stays there. Whenever the
 * program reads from standard input through libc (shell prompt, questions, waiting at the end)
 * all heap memory is searched for the eight byte strings (numbers, sorted) in the file PFPMC_NEEDLES; findings are
 * appended to PFPMC_HEAPLOG:
 *   SCAN <number of the read> <bytes in use>
 *   FOUND <number of the read> <index of the needle> <offset>
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#define ARENA (1ul << 30)
static unsigned char *arena;
static size_t used;
static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;

static void *bump(size_t align, size_t n)
{
    if (align < 16)
        align = 16;
    pthread_mutex_lock(&mutex);
    if (!arena) {
        arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arena == MAP_FAILED)
            _exit(99);
    }
    /* size is kept in front of the block */
    size_t start = (used + 16 + align - 1) & ~(align - 1);
    if (start + n + 16 > ARENA) {
        pthread_mutex_unlock(&mutex);
        errno = ENOMEM;
        return NULL;
    }
    used = start + n;
    ((size_t *)(arena + start))[-1] = n;
    pthread_mutex_unlock(&mutex);
    return arena + start;
}

void *malloc(size_t n) { return bump(16, n); }
void free(void *p) { (void)p; }
void *calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    return bump(16, n); /* never used before, hence zero */
}
void *realloc(void *p, size_t n)
{
    void *q = bump(16, n);
    if (q && p) {
        size_t old = ((size_t *)p)[-1];
        memcpy(q, p, old < n ? old : n);
    }
    return q;
}
void *reallocarray(void *p, size_t a, size_t b) { return realloc(p, a * b); }
void *memalign(size_t al, size_t n) { return bump(al, n); }
void *aligned_alloc(size_t al, size_t n) { return bump(al, n); }
void *valloc(size_t n) { return bump(4096, n); }
int posix_memalign(void **p, size_t al, size_t n)
{
    *p = bump(al, n);
    return *p ? 0 : ENOMEM;
}
size_t malloc_usable_size(void *p) { return p ? ((size_t *)p)[-1] : 0; }

static uint64_t needles[1 << 16]; /* static: not part of the heap searched */
static unsigned char filter[1 << 16];
static int scan_no;

static void scan(void)
{
    const char *path = getenv("PFPMC_NEEDLES"), *out = getenv("PFPMC_HEAPLOG");
    if (!path || !out)
        return;
    int fd = syscall(SYS_openat, AT_FDCWD, path, O_RDONLY | O_CLOEXEC, 0);
    if (fd < 0)
        return;
    ssize_t n = syscall(SYS_read, fd, needles, sizeof needles);
    syscall(SYS_close, fd);
    long count = n < 0 ? 0 : n / 8;
    for (long i = 0; i < count; i++)
        filter[(needles[i] * 0x9E3779B97F4A7C15ull) >> 48] = 1;
    int lf = syscall(SYS_openat, AT_FDCWD, out, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    char line[128];
    int len = snprintf(line, sizeof line, "SCAN %d %zu\n", scan_no, used);
    (void)!syscall(SYS_write, lf, line, len);
    int found = 0;
    for (size_t at = 0; arena && at + 8 <= used && found < 5000; at++) {
        uint64_t w;
        memcpy(&w, arena + at, 8);
        if (!filter[(w * 0x9E3779B97F4A7C15ull) >> 48])
            continue;
        long lo = 0, hi = count; /* sorted */
        while (lo < hi) {
            long mid = (lo + hi) / 2;
            if (needles[mid] < w)
                lo = mid + 1;
            else
                hi = mid;
        }
        if (lo < count && needles[lo] == w) {
            len = snprintf(line, sizeof line, "FOUND %d %ld %zu\n", scan_no, lo, at);
            (void)!syscall(SYS_write, lf, line, len);
            found++;
        }
    }
    syscall(SYS_close, lf);
    scan_no++;
}

ssize_t read(int fd, void *buf, size_t n)
{
    static ssize_t (*real)(int, void *, size_t);
    if (!real)
        real = (ssize_t(*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
    if (fd == 0 && n > 1) /* single bytes: in the middle of entering a secret */
        scan();
    return real(fd, buf, n);
}
