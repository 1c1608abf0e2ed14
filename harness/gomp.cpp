// A small OpenMP runtime on plain pthreads, for the TSan build: TSan sees every synchronisation it
// performs (unlike libgomp's futexes), so a data race in a parallel region is reported, and only that.
// Every region runs on new threads, started in random order with random delays and dynamic chunks in
// random sizes, so schedules vary from call to call.
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <vector>

struct Team {
    int n; pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; pthread_barrier_t bar;
    // the current work-sharing loop
    long next = 0, end = 0, incr = 1, chunk = 1; int arrived = 0; unsigned gen = 0;
    int singles = 0;
};
struct Self { Team* team = nullptr; int id = 0; unsigned gen = 0; int singles = 0; };
static thread_local Self self;
static int want_threads = 0;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
static unsigned long verif_regions = 0;
static uint64_t rng_state = 88172645463325252ull;

static unsigned rnd() {
    static __thread uint64_t s = 0;   // per launching thread
    if (!s) s = __atomic_add_fetch(&rng_state, 0x9e3779b97f4a7c15ull, __ATOMIC_RELAXED);
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    return (unsigned)(s >> 16);
}
struct Arg { void (*fn)(void*); void* data; Team* team; int id; unsigned delay; };
static void* entry(void* p) {
    Arg* a = (Arg*)p;
    for (unsigned i = 0; i < a->delay; i++) sched_yield();
    self.team = a->team; self.id = a->id; self.gen = 0; self.singles = 0;
    a->fn(a->data);
    return nullptr;
}
static int default_threads() {
    if (want_threads > 0) return want_threads;
    const char* e = getenv("OMP_NUM_THREADS");
    return e && atoi(e) > 0 ? atoi(e) : 4;
}
static void run_team(void (*fn)(void*), void* data, unsigned num, long s = 0, long e = 0, long inc = 1, long ch = 1, bool loop = false) {
    Team t; t.n = num ? (int)num : default_threads();
    if (self.team) t.n = 1;                       // no nesting
    if (loop) { t.next = s; t.end = e; t.incr = inc; t.chunk = ch < 1 ? 1 : ch; t.gen = 1; }
    pthread_barrier_init(&t.bar, nullptr, t.n);
    Self saved = self;
    if (t.n > 1) __atomic_fetch_add(&verif_regions, 1, __ATOMIC_RELAXED);
    std::vector<pthread_t> th(t.n); std::vector<Arg> a(t.n); std::vector<int> ids(t.n);
    for (int i = 0; i < t.n; i++) ids[i] = i;
    if (!saved.team) for (int i = t.n - 1; i > 0; i--) { int j = rnd() % (i + 1); int x = ids[i]; ids[i] = ids[j]; ids[j] = x; }
    if (t.n == 1) {
        self.team = &t; self.id = 0; self.gen = 0; self.singles = 0; fn(data);
    } else {
        for (int i = 0; i < t.n; i++) { a[i] = {fn, data, &t, ids[i], rnd() % 4 ? 0 : rnd() % 50}; pthread_create(&th[i], nullptr, entry, &a[i]); }
        for (int i = 0; i < t.n; i++) pthread_join(th[i], nullptr);
    }
    self = saved;
    pthread_barrier_destroy(&t.bar);
}
extern "C" {
unsigned long verif_parallel_regions() { return __atomic_load_n(&verif_regions, __ATOMIC_RELAXED); }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned num, unsigned) { run_team(fn, data, num); }
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { run_team(fn, d, n, s, e, i, c, true); }
PLOOP(dynamic) PLOOP(guided) PLOOP(static) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { run_team(fn, d, n, s, e, i, 1, true); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
int omp_get_num_threads() { return self.team ? self.team->n : 1; }
int omp_get_thread_num() { return self.id; }
int omp_get_max_threads() { return default_threads(); }
void omp_set_num_threads(int n) { want_threads = n; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return self.team && self.team->n > 1; }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
typedef pthread_mutex_t* L;
void omp_init_lock(L* l) { *l = (L)malloc(sizeof(pthread_mutex_t)); pthread_mutex_init(*l, nullptr); }
void omp_destroy_lock(L* l) { pthread_mutex_destroy(*l); free(*l); }
void omp_set_lock(L* l) { pthread_mutex_lock(*l); }
void omp_unset_lock(L* l) { pthread_mutex_unlock(*l); }
void GOMP_barrier() { if (self.team && self.team->n > 1) pthread_barrier_wait(&self.team->bar); }
void GOMP_critical_start() { pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
static pthread_mutex_t named[8] = {PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER,
                                   PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER};
static pthread_mutex_t* by_name(void** p) { return &named[((uintptr_t)p >> 3) & 7]; }
void GOMP_critical_name_start(void** p) { pthread_mutex_lock(by_name(p)); }
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(by_name(p)); }
static pthread_mutex_t atom = PTHREAD_MUTEX_INITIALIZER;
void GOMP_atomic_start() { pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
bool GOMP_single_start() {
    if (!self.team) return true;
    pthread_mutex_lock(&self.team->mu);
    bool first = self.team->singles == self.singles; if (first) self.team->singles++;
    self.singles++;
    pthread_mutex_unlock(&self.team->mu);
    return first;
}
static bool take(long* a, long* b) {
    Team* t = self.team; bool ok = false;
    pthread_mutex_lock(&t->mu);
    if (t->incr > 0 ? t->next < t->end : t->next > t->end) {
        *a = t->next; long e = t->next + t->incr * t->chunk;
        if (t->incr > 0 ? e > t->end : e < t->end) e = t->end;
        *b = t->next = e; ok = true;
    }
    pthread_mutex_unlock(&t->mu);
    return ok;
}
static thread_local Team solo;
static bool start(long s, long e, long i, long c, long* a, long* b) {
    if (!self.team) { solo.n = 1; self.team = &solo; }
    Team* t = self.team; self.gen++;
    pthread_mutex_lock(&t->mu);
    if (t->gen < self.gen) { t->gen = self.gen; t->next = s; t->end = e; t->incr = i; t->chunk = c < 1 ? 1 : c; }
    pthread_mutex_unlock(&t->mu);
    return take(a, b);
}
#define LOOP(name) bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return start(s, e, i, c, a, b); } \
    bool GOMP_loop_##name##_next(long* a, long* b) { return take(a, b); }
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(name) bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { return start(s, e, i, 1, a, b); } \
    bool GOMP_loop_##name##_next(long* a, long* b) { return take(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
}
