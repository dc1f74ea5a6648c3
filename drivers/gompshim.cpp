// A stand-in for libgomp built on plain pthreads, so that ThreadSanitizer sees every synchronisation OpenMP promises and no other,
// and so that the harness chooses the number of threads, the order they start in and the pauses between them.
#include "gompshim.hpp"
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <vector>

namespace {
struct Share { // one work-sharing construct
    bool init = false;
    long next = 0, end = 0, incr = 1, chunk = 1;
    unsigned count = 0;
    bool single = false;
    void* copy = nullptr;
};
struct Team {
    int n;
    pthread_mutex_t m;
    pthread_barrier_t bar;
    std::vector<Share*> shares;
    // one-by-one mode: 0 can run, 1 has the turn, 2 waits at a barrier, 3 ended
    std::vector<int> what;
    pthread_mutex_t turn;
    pthread_cond_t changed;
    explicit Team(int n) : n(n), what(n, 0) {
        pthread_mutex_init(&turn, nullptr);
        pthread_cond_init(&changed, nullptr);
        pthread_mutex_init(&m, nullptr);
        pthread_barrier_init(&bar, nullptr, n);
    }
    ~Team() {
        for (auto* s : shares) delete s;
        pthread_mutex_destroy(&m);
        pthread_barrier_destroy(&bar);
        pthread_mutex_destroy(&turn);
        pthread_cond_destroy(&changed);
    }
};
struct Self {
    Team* team;
    int id;
    size_t share; // work-sharing constructs met so far
};
thread_local Self self = {nullptr, 0, 0};
GompPlan plan; // only changed outside parallel regions
uint64_t state = 1;
uint64_t rnd() {
    uint64_t z = (state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
pthread_mutex_t atomicMutex = PTHREAD_MUTEX_INITIALIZER, criticalMutex = PTHREAD_MUTEX_INITIALIZER;

// In one-by-one mode only the thread whose turn it is runs, until it ends, waits at a barrier or fetches a chunk of iterations.
void pass(Team* t) { // turn held: somebody else may go on
    std::vector<int> can;
    for (int k = 0; k < t->n; k++) if (t->what[k] == 0) can.push_back(k);
    if (can.empty()) for (int k = 0; k < t->n; k++) if (t->what[k] == 2) { t->what[k] = 0; can.push_back(k); }
    if (!can.empty()) t->what[can[rnd() % can.size()]] = 1;
    pthread_cond_broadcast(&t->changed);
}
void waitTurn(Team* t, int id) { while (t->what[id] != 1) pthread_cond_wait(&t->changed, &t->turn); }
void switchTo(Team* t, int id, int state) {
    pthread_mutex_lock(&t->turn);
    t->what[id] = state;
    pass(t);
    if (state != 3) waitTurn(t, id);
    pthread_mutex_unlock(&t->turn);
}

struct Start {
    void (*fn)(void*);
    void* data;
    Self s;
    unsigned pause;
    Share* pre;
};
void body(Start* a) {
    Self old = self;
    self = a->s;
    for (unsigned k = 0; k < a->pause; k++) sched_yield();
    a->fn(a->data);
    self = old;
}
void* threadMain(void* p) {
    Start* a = (Start*) p;
    if (!plan.oneByOne) { body(a); return nullptr; }
    Team* t = a->s.team;
    pthread_mutex_lock(&t->turn);
    waitTurn(t, a->s.id);
    pthread_mutex_unlock(&t->turn);
    body(a);
    switchTo(t, a->s.id, 3);
    return nullptr;
}
// pre: the work-sharing construct of a combined parallel loop
void parallel(void (*fn)(void*), void* data, unsigned asked, Share* pre) {
    int n = plan.threads;
    if (asked && (int) asked < n) n = (int) asked;
    if (self.team && self.team->n > 1) n = 1; // nested
    Team* t = new Team(n);
    if (pre) t->shares.push_back(pre);
    gompStats.regions++;
    if (n > 1) gompStats.teams++;
    std::vector<int> order(n);
    for (int k = 0; k < n; k++) order[k] = k;
    if (n > 1) for (int k = n - 1; k > 0; k--) std::swap(order[k], order[rnd() % (k + 1)]);
    std::vector<Start> st(n);
    for (int k = 0; k < n; k++) st[k] = {fn, data, {t, order[k], 0}, n > 1 && plan.pauses ? (unsigned) (rnd() % 8 ? rnd() % 4 : rnd() % 200) : 0, pre};
    for (int k = 0; k < n; k++) gompStats.hash = (gompStats.hash ^ (uint64_t) (order[k] + 1 + n * 64)) * 1099511628211ull;
    if (n == 1) body(&st[0]);
    else {
        std::vector<pthread_t> th(n);
        for (int k = 0; k < n; k++) {
            if (pthread_create(&th[k], nullptr, threadMain, &st[k])) { fprintf(stderr, "HARNESS: no threads\n"); _exit(78); }
        }
        if (plan.oneByOne) {
            pthread_mutex_lock(&t->turn);
            pass(t);
            pthread_mutex_unlock(&t->turn);
        }
        for (int k = 0; k < n; k++) pthread_join(th[k], nullptr);
    }
    delete t;
}
Share* nextShare(bool* first) { // caller holds no lock; returns with the team's lock held
    Team* t = self.team;
    static thread_local Team* alone = nullptr;
    if (!t) { // outside any region: a team of one
        if (!alone) alone = new Team(1);
        self.team = t = alone;
        self.share = t->shares.size();
    }
    pthread_mutex_lock(&t->m);
    size_t k = self.share++;
    *first = k >= t->shares.size();
    if (*first) t->shares.push_back(new Share());
    return t->shares[k];
}
bool grab(Share* s, long* a, long* b) { // lock held; releases it
    bool more = s->incr > 0 ? s->next < s->end : s->next > s->end;
    if (more) {
        long c = s->chunk > 0 ? s->chunk : 1;
        *a = s->next;
        long left = s->incr > 0 ? (s->end - s->next + s->incr - 1) / s->incr : (s->end - s->next + s->incr + 1) / s->incr;
        if (c > left) c = left;
        s->next += c * s->incr;
        *b = s->incr > 0 ? (s->next > s->end ? s->end : s->next) : (s->next < s->end ? s->end : s->next);
    }
    pthread_mutex_unlock(&self.team->m);
    if (more && self.team->n > 1) {
        if (plan.oneByOne) switchTo(self.team, self.id, 0);
        else if (plan.pauses) sched_yield();
    }
    return more;
}
bool loopStart(long start, long end, long incr, long chunk, long* a, long* b) {
    bool first;
    Share* s = nextShare(&first);
    if (first) { s->init = true; s->next = start; s->end = end; s->incr = incr; s->chunk = chunk; }
    return grab(s, a, b);
}
bool loopNext(long* a, long* b) {
    Team* t = self.team;
    pthread_mutex_lock(&t->m);
    if (self.share == 0) self.share = 1; // combined parallel loop
    return grab(t->shares[self.share - 1], a, b);
}
void barrier() {
    if (self.team && self.team->n > 1) {
        if (plan.oneByOne) switchTo(self.team, self.id, 2);
        else pthread_barrier_wait(&self.team->bar);
    }
}
Share* loopShare(long start, long end, long incr, long chunk) {
    Share* s = new Share();
    s->init = true; s->next = start; s->end = end; s->incr = incr; s->chunk = chunk;
    return s;
}
} // namespace

GompStats gompStats;
void gompPlan(const GompPlan& p) {
    plan  = p;
    state = p.seed * 2654435761u + 88172645463325252ull;
}

typedef unsigned long long ull;
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n, nullptr); return plan.threads; }
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned) { parallel(fn, data, n, loopShare(s, e, i, c)); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned) { parallel(fn, data, n, loopShare(s, e, i, 1)); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
#define LOOP(name) bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return loopStart(s, e, i, c, a, b); } \
                   bool GOMP_loop_##name##_next(long* a, long* b) { return loopNext(a, b); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(name) bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { return loopStart(s, e, i, 1, a, b); } \
                    bool GOMP_loop_##name##_next(long* a, long* b) { return loopNext(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
#define ULOOP(name) bool GOMP_loop_ull_##name##_start(bool, ull s, ull e, ull i, ull c, ull* a, ull* b) { return loopStart((long) s, (long) e, (long) i, (long) c, (long*) a, (long*) b); } \
                    bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return loopNext((long*) a, (long*) b); }
ULOOP(static) ULOOP(dynamic) ULOOP(guided) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided)
#define ULOOPR(name) bool GOMP_loop_ull_##name##_start(bool, ull s, ull e, ull i, ull* a, ull* b) { return loopStart((long) s, (long) e, (long) i, 1, (long*) a, (long*) b); } \
                     bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return loopNext((long*) a, (long*) b); }
ULOOPR(runtime) ULOOPR(nonmonotonic_runtime) ULOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { barrier(); return false; }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_atomic_start() { pthread_mutex_lock(&atomicMutex); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atomicMutex); }
void GOMP_critical_start() { pthread_mutex_lock(&criticalMutex); }
void GOMP_critical_end() { pthread_mutex_unlock(&criticalMutex); }
void GOMP_critical_name_start(void** p) {
    static pthread_mutex_t make = PTHREAD_MUTEX_INITIALIZER;
    pthread_mutex_lock(&make);
    if (!*p) { auto* m = new pthread_mutex_t; pthread_mutex_init(m, nullptr); *p = m; }
    pthread_mutex_t* m = (pthread_mutex_t*) *p;
    pthread_mutex_unlock(&make);
    pthread_mutex_lock(m);
}
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock((pthread_mutex_t*) *p); }
bool GOMP_single_start() {
    bool first;
    Share* s = nextShare(&first);
    bool mine = !s->single;
    s->single = true;
    pthread_mutex_unlock(&self.team->m);
    return mine;
}
void* GOMP_single_copy_start() {
    if (GOMP_single_start()) return nullptr;
    barrier();
    return self.team->shares[self.share - 1]->copy;
}
void GOMP_single_copy_end(void* d) {
    self.team->shares[self.share - 1]->copy = d;
    barrier();
}
unsigned GOMP_sections_start(unsigned n) {
    long a, b;
    return loopStart(1, (long) n + 1, 1, 1, &a, &b) ? (unsigned) a : 0;
}
unsigned GOMP_sections_next() {
    long a, b;
    return loopNext(&a, &b) ? (unsigned) a : 0;
}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned) { parallel(fn, data, n, loopShare(1, (long) count + 1, 1, 1)); }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
bool GOMP_sections_end_cancel() { barrier(); return false; }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    if (!cpy) { fn(data); return; }
    void* raw = malloc(size + align);
    void* buf = (void*) (((uintptr_t) raw + align - 1) / align * align);
    cpy(buf, data);
    fn(buf);
    free(raw);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}

int omp_get_thread_num() { return self.team ? self.id : 0; }
int omp_get_num_threads() { return self.team ? self.team->n : 1; }
int omp_get_max_threads() { return plan.threads; }
int omp_get_num_procs() { return plan.threads; }
int omp_get_thread_limit() { return 1 << 20; }
int omp_in_parallel() { return self.team && self.team->n > 1; }
int omp_get_level() { return self.team ? 1 : 0; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_dynamic() { return 0; }
int omp_get_nested() { return 0; }
int omp_get_max_active_levels() { return 1; }
void omp_set_num_threads(int) {} // the plan decides
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_max_active_levels(int) {}
void omp_set_schedule(int, int) {}
double omp_get_wtime() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec;
}
double omp_get_wtick() { return 1e-9; }
static pthread_mutex_t locks[4096];
static std::atomic<int> lockCount{0};
void omp_init_lock(int* l) { *l = lockCount++; pthread_mutex_init(&locks[*l & 4095], nullptr); }
void omp_destroy_lock(int*) {}
void omp_set_lock(int* l) { pthread_mutex_lock(&locks[*l & 4095]); }
void omp_unset_lock(int* l) { pthread_mutex_unlock(&locks[*l & 4095]); }
int omp_test_lock(int* l) { return pthread_mutex_trylock(&locks[*l & 4095]) == 0; }
}
