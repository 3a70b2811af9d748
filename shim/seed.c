/* Makes the random seeds of hash tables a function of a number that the explorer chooses: getrandom
 * fills its buffer from the first 8 bytes of the file named by ACCMC_SEED_FILE, which is mapped shared,
 * so that the explorer can change it between requests to one process. ACCMC_SEED=N[:CLOCK] sets them
 * for one process instead. The clock of the day is moved by the third number of the file (seconds). */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <dlfcn.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static uint64_t fixed[8];
static volatile uint64_t *cell;
static int (*r_clock)(clockid_t, struct timespec *);

__attribute__((constructor)) static void init(void) {
    r_clock = dlsym(RTLD_NEXT, "clock_gettime");
    const char *v = getenv("ACCMC_SEED");
    if (v) {
        char *e;
        fixed[0] = strtoull(v, &e, 10);
        if (*e == ':') fixed[2] = (uint64_t)strtoll(e + 1, 0, 10);
        cell = fixed;
        return;
    }
    const char *f = getenv("ACCMC_SEED_FILE");
    if (!f) return;
    int fd = open(f, O_RDWR);
    if (fd < 0) return;
    void *p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (p != MAP_FAILED) cell = p;
}

static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    (void)flags;
    uint64_t s = cell ? cell[0] : 0;
    unsigned char *b = buf;
    for (size_t i = 0; i < len; i++)
        b[i] = (unsigned char)(mix(s * 1000003u + i / 8) >> (8 * (i % 8)));
    if (cell) cell[1]++; /* lets the explorer see that the seed is in use */
    return (ssize_t)len;
}

int clock_gettime(clockid_t c, struct timespec *t) {
    int r = r_clock(c, t);
    if (cell && !r && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += (int64_t)cell[2];
    return r;
}

time_t time(time_t *p) {
    struct timespec t;
    if (clock_gettime(CLOCK_REALTIME, &t)) return -1;
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    (void)tz;
    struct timespec t;
    if (clock_gettime(CLOCK_REALTIME, &t)) return -1;
    if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; }
    return 0;
}
