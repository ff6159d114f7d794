// Stand-in for libgomp, compiled with ThreadSanitizer, so that TSan knows every synchronisation of
// the OpenMP program and nothing but it: threads are created and joined per region, barriers and
// critical sections are pthread objects, chunks of loops are handed out by relaxed atomics (which
// order nothing). Random delays at thread start and before chunks perturb the schedule.
#include "gomp.h"
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
#include <vector>

typedef unsigned long long ull;
#define RELAXED std::memory_order_relaxed

namespace
{
    constexpr unsigned WORKS = 1 << 14;

    struct Team {
        int n;
        std::atomic<long>* works; // one counter per work-sharing construct met
        std::mutex m;
        std::condition_variable cv;
        int waiting       = 0;
        unsigned long gen = 0;
        void* copy        = nullptr; // single copyprivate
        std::atomic<uint64_t> ticket{0}, inside{0}, order{0};
        std::atomic<bool> overlap{false};
        explicit Team(int k) : n(k), works(static_cast<std::atomic<long>*>(std::calloc(WORKS, sizeof(std::atomic<long>)))) {}
        ~Team() { std::free(works); }
    };
    struct Self {
        Team* team    = nullptr;
        int id        = 0;
        int level     = 0;
        unsigned work = 0; // constructs met so far
        // the loop being executed
        bool is_ull = false, up = true;
        long start = 0, end = 0, incr = 1, chunk = 1;
        ull ustart = 0, uend = 0, uincr = 1, uchunk = 1;
        long sections = 0;
        uint64_t rng = 88172645463325252ull;
    };
    thread_local Self self;

    std::atomic<int> wanted{0};
    std::atomic<uint64_t> seed{1}, regions{0}, threads{0}, chunks{0}, overlaps{0}, serial{0};
    // set of the orders seen, without locks: statistics must not order the callers
    constexpr std::size_t TABLE = std::size_t(1) << 21;
    std::atomic<uint64_t> table[TABLE], distinct{0};
    void remember(uint64_t h)
    {
        h |= 1;
        for(std::size_t i = std::size_t(h >> 20) % TABLE, k = 0; k < 64; ++k, i = (i + 1) % TABLE) {
            uint64_t old = table[i].load(RELAXED);
            if(old == h) {
                return;
            }
            if(old == 0) {
                if(table[i].compare_exchange_strong(old, h, RELAXED)) {
                    distinct.fetch_add(1, RELAXED);
                    return;
                }
                if(old == h) {
                    return;
                }
            }
        }
    }

    int default_threads()
    {
        const int w = wanted.load(RELAXED);
        if(w > 0) {
            return w;
        }
        const char* e = std::getenv("OMP_NUM_THREADS");
        const int n   = e ? std::atoi(e) : 0;
        return n > 0 ? n : 4;
    }
    uint64_t draw()
    {
        uint64_t& x = self.rng;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        return x;
    }
    void perturb(unsigned one_in)
    {
        if(!self.team || self.team->n < 2 || draw() % one_in) {
            return;
        }
        switch(draw() % 4) {
            case 0: sched_yield(); break;
            case 1: usleep(unsigned(draw() % 60)); break;
            case 2: usleep(unsigned(draw() % 400)); break;
            default:
                for(volatile unsigned k = unsigned(draw() % 3000); k > 0; k = k - 1) {
                }
        }
    }
    // remembers who came when
    void arrive(uint64_t what)
    {
        if(Team* t = self.team) {
            const uint64_t k = t->ticket.fetch_add(1, RELAXED);
            uint64_t h       = (k + 1) * 0x9e3779b97f4a7c15ull ^ (uint64_t(self.id) + 1) * 0xbf58476d1ce4e5b9ull ^ what * 0x94d049bb133111ebull;
            h ^= h >> 29;
            t->order.fetch_add(h * 0x2545f4914f6cdd1dull, RELAXED);
        }
    }

    struct Save {
        Self s;
        Save() : s(self) {}
        ~Save()
        {
            const uint64_t r = self.rng;
            self             = s;
            self.rng         = r;
        }
    };
    void member(Team* t, int id, int level, void (*fn)(void*), void* data, const Self& init, uint64_t s)
    {
        self       = init;
        self.team  = t;
        self.id    = id;
        self.level = level;
        self.work  = 0;
        self.rng   = (s + uint64_t(id) * 7919 + 1) * 0x9e3779b97f4a7c15ull | 1;
        perturb(2);
        arrive(0);
        if(t->inside.fetch_add(1, RELAXED) > 0) {
            t->overlap.store(true, RELAXED);
        }
        fn(data);
        t->inside.fetch_sub(1, RELAXED);
    }
    void parallel(void (*fn)(void*), void* data, unsigned num, const Self& init)
    {
        int n = num ? int(num) : default_threads();
        if(self.level > 0) {
            n = 1; // nested parallelism is off
        }
        Save keep;
        const uint64_t s = seed.load(RELAXED) * 1000003 + serial.fetch_add(1, RELAXED) * 17;
        Team t(n);
        {
            const int level = keep.s.level + 1;
            std::vector<std::thread> others;
            std::vector<int> ids;
            for(int k = 1; k < n; ++k) {
                ids.push_back(k);
            }
            for(int k = int(ids.size()) - 1; k > 0; --k) { // started in any order
                std::swap(ids[std::size_t(k)], ids[draw() % std::size_t(k + 1)]);
            }
            for(int id : ids) {
                others.emplace_back([&t, id, level, fn, data, &init, s] { member(&t, id, level, fn, data, init, s); });
            }
            member(&t, 0, level, fn, data, init, s);
            for(auto& o : others) {
                o.join();
            }
        }
        if(n > 1) {
            regions.fetch_add(1, RELAXED);
            threads.fetch_add(uint64_t(n), RELAXED);
            overlaps.fetch_add(t.overlap.load(RELAXED), RELAXED);
            remember(t.order.load(RELAXED) ^ uint64_t(n));
        }
    }

    std::atomic<long>& counter()
    {
        static std::atomic<long> alone[WORKS];
        // a construct met outside of a region: a team of one
        if(!self.team) {
            auto& c = alone[self.work % WORKS];
            return c;
        }
        if(self.work >= WORKS) {
            std::abort();
        }
        return self.team->works[self.work];
    }
    void enter_work()
    {
        ++self.work;
        if(!self.team) {
            counter().store(0, RELAXED);
        }
    }
    int team_size() { return self.team ? self.team->n : 1; }
    void barrier()
    {
        Team* t = self.team;
        if(!t || t->n == 1) {
            return;
        }
        perturb(4);
        std::unique_lock<std::mutex> lock(t->m);
        const auto g = t->gen;
        if(++t->waiting == t->n) {
            t->waiting = 0;
            ++t->gen;
            t->cv.notify_all();
        } else {
            t->cv.wait(lock, [&] { return t->gen != g; });
        }
    }
    bool next(long* a, long* b)
    {
        perturb(6);
        const long k = counter().fetch_add(1, RELAXED);
        const long c = self.chunk > 0 ? self.chunk : 1;
        const long long first = (long long)self.start + (long long)k * c * self.incr;
        if(self.incr > 0 ? first >= self.end : first <= self.end) {
            return false;
        }
        long long last = first + (long long)c * self.incr;
        if(self.incr > 0 ? last > self.end : last < self.end) {
            last = self.end;
        }
        *a = long(first);
        *b = long(last);
        chunks.fetch_add(1, RELAXED);
        arrive(uint64_t(k) + 1);
        return true;
    }
    bool start(long s, long e, long i, long c, long* a, long* b)
    {
        enter_work();
        self.start = s, self.end = e, self.incr = i, self.chunk = c;
        return a ? next(a, b) : true;
    }
    bool unext(ull* a, ull* b)
    {
        perturb(6);
        const ull k = ull(counter().fetch_add(1, RELAXED));
        const ull c = self.uchunk > 0 ? self.uchunk : 1;
        // number of iterations, then the chunk
        const ull step  = self.up ? self.uincr : 0 - self.uincr;
        const ull range = self.up ? (self.uend > self.ustart ? self.uend - self.ustart : 0)
                                  : (self.ustart > self.uend ? self.ustart - self.uend : 0);
        const ull count = range / step + (range % step != 0);
        if(k >= count / c + (count % c != 0)) {
            return false;
        }
        const ull from = k * c, to = std::min(count, from + c);
        *a = self.up ? self.ustart + from * step : self.ustart - from * step;
        *b = to == count ? self.uend : self.up ? self.ustart + to * step : self.ustart - to * step;
        chunks.fetch_add(1, RELAXED);
        arrive(k + 1);
        return true;
    }
    bool ustart(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b)
    {
        enter_work();
        self.up = up, self.ustart = s, self.uend = e, self.uincr = i, self.uchunk = c;
        return a ? unext(a, b) : true;
    }
    struct LoopCall {
        void (*fn)(void*);
        void* data;
        long s, e, i, c;
    };
    void loop_member(void* p)
    {
        auto* l = static_cast<LoopCall*>(p);
        enter_work();
        self.start = l->s, self.end = l->e, self.incr = l->i, self.chunk = l->c;
        l->fn(l->data);
    }
    void parallel_loop(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c)
    {
        LoopCall l{fn, data, s, e, i, c};
        parallel(loop_member, &l, n, Self());
    }
    pthread_mutex_t critical  = PTHREAD_MUTEX_INITIALIZER;
    pthread_mutex_t atomically = PTHREAD_MUTEX_INITIALIZER;
    pthread_mutex_t named[257];
    struct InitNamed {
        InitNamed()
        {
            for(auto& m : named) {
                pthread_mutex_init(&m, nullptr);
            }
        }
    } init_named;
    pthread_mutex_t* of(void** p) { return &named[(reinterpret_cast<uintptr_t>(p) >> 3) % 257]; }
} // namespace

extern "C" {
VfGompStats vf_gomp_stats()
{
    return {regions.load(), threads.load(), chunks.load(), distinct.load(), overlaps.load()};
}
void vf_gomp_seed(uint64_t s) { seed.store(s, RELAXED); }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n, Self()); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned)
{
    parallel(fn, data, n, Self());
    return n ? n : unsigned(default_threads());
}
#define PARALLEL_LOOP(name) \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned) \
    { \
        parallel_loop(fn, data, n, s, e, i, c); \
    }
PARALLEL_LOOP(static)
PARALLEL_LOOP(dynamic)
PARALLEL_LOOP(guided)
PARALLEL_LOOP(nonmonotonic_dynamic)
PARALLEL_LOOP(nonmonotonic_guided)
#define PARALLEL_RUNTIME(name) \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned) \
    { \
        parallel_loop(fn, data, n, s, e, i, 1); \
    }
PARALLEL_RUNTIME(runtime)
PARALLEL_RUNTIME(nonmonotonic_runtime)
PARALLEL_RUNTIME(maybe_nonmonotonic_runtime)
#define LOOP(name) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return start(s, e, i, c, a, b); } \
    bool GOMP_loop_##name##_next(long* a, long* b) { return next(a, b); } \
    bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return ustart(up, s, e, i, c, a, b); } \
    bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return unext(a, b); }
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
#define LOOP_RUNTIME(name) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { return start(s, e, i, 1, a, b); } \
    bool GOMP_loop_##name##_next(long* a, long* b) { return next(a, b); } \
    bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { return ustart(up, s, e, i, 1, a, b); } \
    bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return unext(a, b); }
LOOP_RUNTIME(runtime)
LOOP_RUNTIME(nonmonotonic_runtime)
LOOP_RUNTIME(maybe_nonmonotonic_runtime)
bool GOMP_loop_start(long s, long e, long i, long, long c, long* a, long* b, uintptr_t*, void** mem)
{
    if(mem) {
        std::abort();
    }
    return start(s, e, i, c, a, b);
}
bool GOMP_loop_ull_start(bool up, ull s, ull e, ull i, long, ull c, ull* a, ull* b, uintptr_t*, void** mem)
{
    if(mem) {
        std::abort();
    }
    return ustart(up, s, e, i, c, a, b);
}
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel()
{
    barrier();
    return false;
}
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel()
{
    barrier();
    return false;
}
void GOMP_critical_start()
{
    perturb(4);
    pthread_mutex_lock(&critical);
}
void GOMP_critical_end() { pthread_mutex_unlock(&critical); }
void GOMP_critical_name_start(void** p)
{
    perturb(4);
    pthread_mutex_lock(of(p));
}
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(of(p)); }
void GOMP_atomic_start() { pthread_mutex_lock(&atomically); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atomically); }
bool GOMP_single_start()
{
    enter_work();
    return counter().fetch_add(1, RELAXED) == 0;
}
void* GOMP_single_copy_start()
{
    enter_work();
    if(counter().fetch_add(1, RELAXED) == 0) {
        return nullptr;
    }
    barrier();
    return self.team ? self.team->copy : nullptr;
}
void GOMP_single_copy_end(void* data)
{
    if(self.team) {
        self.team->copy = data;
    }
    barrier();
}
unsigned GOMP_sections_next()
{
    perturb(2);
    const long k = counter().fetch_add(1, RELAXED);
    return k < self.sections ? unsigned(k + 1) : 0;
}
unsigned GOMP_sections_start(unsigned n)
{
    enter_work();
    self.sections = n;
    return GOMP_sections_next();
}
struct SectionsCall {
    void (*fn)(void*);
    void* data;
    unsigned count;
};
static void sections_member(void* p)
{
    auto* c = static_cast<SectionsCall*>(p);
    enter_work();
    self.sections = c->count;
    c->fn(c->data);
}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned)
{
    SectionsCall c{fn, data, count};
    parallel(sections_member, &c, n, Self());
}
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
bool GOMP_sections_end_cancel()
{
    barrier();
    return false;
}
// tasks are executed at once by the thread creating them
void GOMP_task(void (*fn)(void*), void* data, void (*copy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*)
{
    if(!copy) {
        fn(data);
        return;
    }
    void* m = nullptr;
    if(posix_memalign(&m, std::size_t(align) < sizeof(void*) ? sizeof(void*) : std::size_t(align), std::size_t(size ? size : 1))) {
        std::abort();
    }
    copy(m, data);
    fn(m);
    std::free(m);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

int omp_get_max_threads() { return default_threads(); }
int omp_get_num_threads() { return team_size(); }
int omp_get_thread_num() { return self.team ? self.id : 0; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return self.team && self.team->n > 1; }
int omp_get_level() { return self.level; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_ancestor_thread_num(int) { return omp_get_thread_num(); }
int omp_get_team_size(int) { return team_size(); }
int omp_get_thread_limit() { return 1 << 20; }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
void omp_set_num_threads(int n) { wanted.store(n, RELAXED); }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
void omp_set_schedule(int, int) {}
int omp_get_cancellation() { return 0; }
double omp_get_wtime()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
double omp_get_wtick() { return 1e-9; }
// locks: a spin lock in the four bytes of omp_lock_t
void omp_init_lock(int* l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); }
void omp_destroy_lock(int*) {}
void omp_set_lock(int* l)
{
    while(__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE)) {
        sched_yield();
    }
}
void omp_unset_lock(int* l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); }
int omp_test_lock(int* l) { return !__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE); }
}
