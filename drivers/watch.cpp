// Preloaded into the real program: logs every reading of the clock, with the live heap and the number of open files at that
// moment, and optionally replaces the time by a virtual one that jumps. The log goes to the same stream as standard output
// (descriptor WATCH_FD), line by line, so that readings and report lines are ordered.
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <malloc.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}
static long live, blocks, peak, total;
static int logFd = -1;
static uint64_t rng, vnow;
static bool virt, every;

static void* in(void* p) {
    if (p) {
        long n = __atomic_add_fetch(&live, (long) malloc_usable_size(p), __ATOMIC_RELAXED);
        __atomic_add_fetch(&blocks, 1, __ATOMIC_RELAXED);
        __atomic_add_fetch(&total, 1, __ATOMIC_RELAXED);
        if (n > peak) peak = n;
    }
    return p;
}
static void out(void* p) {
    if (!p) return;
    __atomic_sub_fetch(&live, (long) malloc_usable_size(p), __ATOMIC_RELAXED);
    __atomic_sub_fetch(&blocks, 1, __ATOMIC_RELAXED);
}
extern "C" {
void* malloc(size_t n) { return in(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void free(void* p) {
    out(p);
    __libc_free(p);
}
void* realloc(void* p, size_t n) {
    long before = p ? (long) malloc_usable_size(p) : 0;
    void* q     = __libc_realloc(p, n);
    if (!q && n) return q;
    long now = __atomic_add_fetch(&live, (q ? (long) malloc_usable_size(q) : 0) - before, __ATOMIC_RELAXED);
    __atomic_add_fetch(&blocks, (q ? 1 : 0) - (p ? 1 : 0), __ATOMIC_RELAXED);
    if (now > peak) peak = now;
    return q;
}
void* memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) {
    *p = in(__libc_memalign(a, n));
    return *p ? 0 : 12;
}
}

static uint64_t rnd() {
    rng ^= rng << 13, rng ^= rng >> 7, rng ^= rng << 17;
    return rng;
}
static uint64_t real(int id) {
    struct timespec t;
    syscall(SYS_clock_gettime, id, &t);
    return t.tv_sec * 1000000000ull + t.tv_nsec;
}
// open files, without opening one
static int files() {
    int n = 0;
    for (int k = 0; k < 1024; k++)
        if (k != logFd && syscall(SYS_fcntl, k, 1 /* F_GETFD */) >= 0) n++;
    return n;
}
static uint64_t reading(int id) {
    uint64_t v;
    if (virt) {
        uint64_t r = rnd() % 100;
        uint64_t s = r < 20 ? rnd() % 1000 : r < 45 ? rnd() % 1000000000ull : r < 70 ? rnd() % 60000000000ull : r < 90 ? rnd() % 3600000000000ull : rnd() % 20000000000000ull;
        vnow += s;
        v = vnow;
    } else v = real(id);
    if (logFd >= 0) {
        char b[200];
        struct rusage u;
        getrusage(RUSAGE_SELF, &u);
        int n = snprintf(b, sizeof b, "\001R %llu %ld %ld %d %ld %ld\n", (unsigned long long) v, live, blocks, files(), peak,
                         (long) (u.ru_utime.tv_sec * 1000000 + u.ru_utime.tv_usec + u.ru_stime.tv_sec * 1000000 + u.ru_stime.tv_usec));
        syscall(SYS_write, logFd, b, (size_t) n);
    }
    return v;
}
extern "C" {
int clock_gettime(clockid_t id, struct timespec* t) {
    if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) return (int) syscall(SYS_clock_gettime, id, t);
    uint64_t v = reading(id);
    t->tv_sec = v / 1000000000ull, t->tv_nsec = v % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval* t, void*) {
    uint64_t v = reading(CLOCK_REALTIME);
    t->tv_sec = v / 1000000000ull, t->tv_usec = v % 1000000000ull / 1000;
    return 0;
}
time_t time(time_t* p) {
    time_t v = (time_t) (reading(CLOCK_REALTIME) / 1000000000ull);
    if (p) *p = v;
    return v;
}
}

// result files opened for writing
static void opened(const char* path) {
    const char* name = path ? strrchr(path, '/') : nullptr;
    if (logFd >= 0 && name && !strncmp(name, "/output_", 8)) syscall(SYS_write, logFd, "\001S\n", 3);
}
template <class F> static F next(const char* name) { return (F) dlsym(RTLD_NEXT, name); }
extern "C" {
FILE* fopen(const char* p, const char* m) {
    static auto f = next<FILE* (*) (const char*, const char*)>("fopen");
    if (!strchr(m, 'r')) opened(p);
    return f(p, m);
}
FILE* fopen64(const char* p, const char* m) {
    static auto f = next<FILE* (*) (const char*, const char*)>("fopen64");
    if (!strchr(m, 'r')) opened(p);
    return f(p, m);
}
int open(const char* p, int flags, ...) {
    static auto f = next<int (*)(const char*, int, unsigned)>("open");
    va_list l;
    va_start(l, flags);
    unsigned mode = va_arg(l, unsigned);
    va_end(l);
    if (flags & 3) opened(p);
    return f(p, flags, mode);
}
int open64(const char* p, int flags, ...) {
    static auto f = next<int (*)(const char*, int, unsigned)>("open64");
    va_list l;
    va_start(l, flags);
    unsigned mode = va_arg(l, unsigned);
    va_end(l);
    if (flags & 3) opened(p);
    return f(p, flags, mode);
}
}

// names of the environment variables asked for
extern "C" char** environ;
static char* look(const char* n) {
    size_t l = strlen(n);
    for (char** e = environ; e && *e; e++)
        if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
    return nullptr;
}
static int envFd = -1;
static void asked(const char* n) {
    if (envFd < 0) return;
    char b[300];
    int k = snprintf(b, sizeof b, "%.250s\n", n);
    syscall(SYS_write, envFd, b, (size_t) k);
}
extern "C" char* getenv(const char* n) { asked(n); return look(n); }
extern "C" char* secure_getenv(const char* n) { asked(n); return look(n); }

__attribute__((constructor)) static void start() {
    if (const char* s = look("WATCH_ENV")) envFd = (int) syscall(SYS_openat, -100, s, 02101 /* O_WRONLY | O_CREAT | O_APPEND */, 0644);
    if (const char* s = look("WATCH_CLOCK")) {
        virt = true, rng = strtoull(s, nullptr, 10) * 0x9e3779b97f4a7c15ull | 1;
        for (int k = 0; k < 8; k++) rnd();
        vnow = 1700000000000000000ull + rnd() % 1000000000000000ull;
    }
    if (const char* s = look("WATCH_FD")) logFd = atoi(s);
    if (look("WATCH_LINES")) setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    unsetenv("LD_PRELOAD");
}
// memory still in use when the program ends
__attribute__((destructor)) static void end() {
    if (logFd < 0) return;
    char b[200];
    struct rusage u;
    getrusage(RUSAGE_SELF, &u);
    int n = snprintf(b, sizeof b, "\001E %ld %ld %ld %ld %ld\n", live, blocks, peak, (long) (u.ru_utime.tv_sec * 1000000 + u.ru_utime.tv_usec + u.ru_stime.tv_sec * 1000000 + u.ru_stime.tv_usec), u.ru_maxrss);
    syscall(SYS_write, logFd, b, (size_t) n);
}
