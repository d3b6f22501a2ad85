// Preloaded into rustc: what the operating system hands to the process at random comes from
// the seed instead. Every getrandom() call of a process gets the same bytes, whatever thread
// asks and however many have asked before, so that a process is a function of its seeds.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <time.h>

static uint64_t env(const char *name) {
    const char *s = getenv(name);
    return s ? strtoull(s, 0, 10) : 0;
}

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    uint64_t x = env("POMSIM_HASH_SEED");
    unsigned char *p = buf;
    (void)flags;
    for (size_t i = 0; i < n; i++) {
        x += 0x9e3779b97f4a7c15ULL;
        uint64_t z = x;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        p[i] = (z ^ (z >> 31)) & 255;
    }
    return n;
}
int getentropy(void *buf, size_t n) {
    getrandom(buf, n, 0);
    return 0;
}

// the wall clock may be anywhere
int clock_gettime(clockid_t id, struct timespec *ts) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real)
        real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(id, ts);
    if (r == 0 && id == CLOCK_REALTIME)
        ts->tv_sec += (int64_t)env("POMSIM_CLOCK");
    return r;
}

// the heap starts out in another shape
__attribute__((constructor)) static void heap(void) {
    uint64_t x = env("POMSIM_HEAP");
    if (!x)
        return;
    void *keep[200];
    for (int i = 0; i < 200; i++) {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        keep[i] = malloc(16 + (x >> 33) % 2000);
        if (keep[i])
            memset(keep[i], 1, 16);
    }
    for (int i = 0; i < 200; i++) {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        if ((x >> 40) & 1)
            free(keep[i]);
    }
}
