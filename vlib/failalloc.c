/* LD_PRELOAD: the k-th allocation (FAIL_ALLOC) or the k-th opening of a file (FAIL_OPEN) fails, from then on all of them with FAIL_ALL;
   the number of calls goes to the file FAIL_COUNT */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
static long nalloc, nopen, kalloc = -1, kopen = -1;
static int all, ready;

static void start(void)
{
    const char *s;
    if (ready) return;
    ready = 1;
    if ((s = getenv("FAIL_ALLOC"))) kalloc = atol(s);
    if ((s = getenv("FAIL_OPEN"))) kopen = atol(s);
    all = getenv("FAIL_ALL") != 0;
}

static int fails(long *n, long k)
{
    start();
    ++*n;
    if (k > 0 && (*n == k || (all && *n > k))) {
        errno = n == &nalloc ? ENOMEM : EMFILE;
        return 1;
    }
    return 0;
}

void *malloc(size_t n) { return fails(&nalloc, kalloc) ? 0 : __libc_malloc(n); }
void *calloc(size_t n, size_t m) { return fails(&nalloc, kalloc) ? 0 : __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { return fails(&nalloc, kalloc) ? 0 : __libc_realloc(p, n); }

FILE *fopen(const char *a, const char *b)
{
    FILE *(*f)(const char *, const char *) = (FILE *(*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
    return fails(&nopen, kopen) ? 0 : f(a, b);
}
int mkstemp(char *t)
{
    int (*f)(char *) = (int (*)(char *)) dlsym(RTLD_NEXT, "mkstemp");
    return fails(&nopen, kopen) ? -1 : f(t);
}
FILE *fdopen(int fd, const char *m)
{
    FILE *(*f)(int, const char *) = (FILE *(*)(int, const char *)) dlsym(RTLD_NEXT, "fdopen");
    return fails(&nopen, kopen) ? 0 : f(fd, m);
}

static __attribute__((destructor)) void report(void)
{
    const char *s = getenv("FAIL_COUNT");
    char b[64];
    int fd;
    if (s && (fd = open(s, O_WRONLY | O_CREAT | O_TRUNC, 0600)) >= 0) {
        int n = snprintf(b, sizeof b, "%ld %ld\n", nalloc, nopen);
        if (write(fd, b, n) != n) _exit(9);
        close(fd);
    }
}
