// See sched.hpp. Takes the place of libgomp (GOMP_*, omp_*) and of the
// ThreadSanitizer run-time (__tsan_*), whose calls the compiler inserts before
// every access to memory. This file itself is not instrumented.
#include "sched.hpp"

#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <random>
#include <thread>
#include <unordered_set>

namespace sched
{
static const size_t STACK = 256 * 1024;
struct Share                     // a work sharing construct of a team
{
    unsigned long long next = 0, end = 0, incr = 1, chunk = 1;
    bool up = true, used = false;
    int entered = 0;
};
struct Team
{
    int n = 1;
    void (*fn)(void*) = nullptr;
    void* data = nullptr;
    int waiting = 0;             // at the barrier
    long phase = 0;
    std::map<long, Share> shares;
    std::map<long, int> singles;
};
struct Fiber
{
    ucontext_t ctx;
    char* stack = nullptr;
    bool done = false;
    std::function<bool()> until; // blocked while false
    int priority = 0;
    long share = 0, single = 0;
    std::vector<int> nested;     // sizes of serialized inner teams
};

static Plan plan;
static bool enabled = false;
static Team* active = nullptr;   // the team with more than one thread
static std::vector<Fiber> fibers;
static std::vector<char*> stacks;
static ucontext_t mainContext;
static int cur = -1;
static int outer = 0;            // serialized regions around it
static long count = 0, limitPoints = 0, fairFrom = 0;
static std::mt19937_64 rng;
static std::unordered_set<uintptr_t> hot;
static size_t nextPoint = 0;
static int wanted = 0;
static const auto mainThread = std::this_thread::get_id();
static thread_local bool inside = false;

[[noreturn]] static void hang(const char* why)
{
    fprintf(stderr, "runtime error: %s under schedule %s\n", why, describe(plan).c_str());
    fflush(stderr);
    _exit(9);
}

std::string describe(const Plan& p)
{
    std::string s = "mode " + std::to_string(p.mode) + " threads " + std::to_string(p.threads)
        + " seed " + std::to_string(p.seed) + " first " + std::to_string(p.first);
    for (auto& x : p.points) s += " " + std::to_string(x.first) + ":" + std::to_string(x.second);
    return s;
}

void start(const Plan& p)
{
    plan = p;
    enabled = p.mode != OFF;
    count = 0;
    fairFrom = 400000;
    limitPoints = 3000000;
    nextPoint = 0;
    wanted = 0;
    rng.seed(p.seed * 7919 + 13);
}
void forget() { hot.clear(); }
long stop()
{
    enabled = false;
    return count;
}
int self() { return active ? cur : 0; }

static bool ready(int k) { return !fibers[k].done && (!fibers[k].until || fibers[k].until()); }

// The next fiber to run; -1 if none can.
static int choose(bool forced)
{
    int n = static_cast<int>(fibers.size());
    bool fair = count > fairFrom;
    if (!forced && !fair)
    {
        switch (plan.mode)
        {
            case RANDOM:
                if (std::uniform_real_distribution<>(0, 1)(rng) >= plan.probability) return cur;
                break;
            case PREEMPT:
                if (nextPoint < plan.points.size() && count >= plan.points[nextPoint].first)
                {
                    int k = plan.points[nextPoint++].second % n;
                    if (ready(k)) return k;
                }
                return cur;
            case SEQUENCE:
                if (static_cast<size_t>(count) < plan.sequence.size())
                {
                    int k = plan.sequence[count] % n;
                    return ready(k) ? k : cur;
                }
                return cur;
            case PRIORITY:
                while (nextPoint < plan.points.size() && count >= plan.points[nextPoint].first)
                    fibers[cur].priority = -static_cast<int>(++nextPoint);
                break;
            case OFF:
                return cur;
            default:
                break;
        }
    }
    if (plan.mode == PRIORITY && !fair)
    {
        int best = -1;
        for (int k = 0; k < n; ++k)
            if (ready(k) && (best < 0 || fibers[k].priority > fibers[best].priority)) best = k;
        return best;
    }
    if (plan.mode == RANDOM && !fair)
    {
        std::vector<int> r;
        for (int k = 0; k < n; ++k) if (ready(k)) r.push_back(k);
        return r.empty() ? -1 : r[rng() % r.size()];
    }
    for (int k = 1; k <= n; ++k) if (ready((cur + k) % n)) return (cur + k) % n;
    return -1;
}

static void go(int k)
{
    if (k == cur) return;
    int from = cur;
    cur = k;
    swapcontext(&fibers[from].ctx, &fibers[k].ctx);
}

static void point()
{
    if (++count > limitPoints) hang("no termination");
    int k = choose(false);
    if (k >= 0) go(k);
}

static void wait(std::function<bool()> until)
{
    if (until()) return;
    fibers[cur].until = until;
    int k = choose(true);
    if (k < 0) hang("deadlock");
    go(k);
    fibers[cur].until = nullptr;
}

static void body()
{
    int me = cur;
    active->fn(active->data);
    fibers[me].done = true;
    int k = choose(true);
    if (k < 0)
    {
        for (auto& f : fibers) if (!f.done) hang("deadlock");
        setcontext(&mainContext);
    }
    cur = k;
    setcontext(&fibers[k].ctx);
}

bool (*allowed)(uintptr_t, bool) = nullptr;
void step() { if (active) point(); }
void pause(std::function<bool()> until) { if (active) wait(until); }

static void team(int n, void (*fn)(void*), void* data, bool always)
{
    if (active || (!always && (n <= 1 || !enabled)))
    {
        if (active) fibers[cur].nested.push_back(1); else ++outer;
        fn(data);
        if (active) fibers[cur].nested.pop_back(); else --outer;
        return;
    }
    Team t;
    t.n = n;
    t.fn = fn;
    t.data = data;
    active = &t;
    fibers.clear();
    fibers.resize(n);
    while (stacks.size() < static_cast<size_t>(n))
        stacks.push_back(static_cast<char*>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE,
                                                 MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)));
    for (int k = 0; k < n; ++k)
    {
        fibers[k].stack = stacks[k];
        fibers[k].priority = n - k;
        getcontext(&fibers[k].ctx);
        fibers[k].ctx.uc_stack.ss_sp = fibers[k].stack;
        fibers[k].ctx.uc_stack.ss_size = STACK;
        fibers[k].ctx.uc_link = &mainContext;
        makecontext(&fibers[k].ctx, body, 0);
    }
    if (plan.mode == PRIORITY)
        for (int k = n - 1; k > 0; --k) std::swap(fibers[k].priority, fibers[rng() % (k + 1)].priority);
    cur = plan.mode == PREEMPT ? plan.first % n : 0;
    if (plan.mode == RANDOM) cur = rng() % n;
    if (plan.mode == PRIORITY) cur = choose(true);
    swapcontext(&mainContext, &fibers[cur].ctx);
    cur = -1;
    active = nullptr;
}

void team(int n, void (*fn)(void*), void* data) { team(n, fn, data, false); }
void items(int n, void (*fn)(void*), void* data) { team(n, fn, data, true); }

static void access(uintptr_t a, bool write)
{
    if (!active || inside || cur < 0 || std::this_thread::get_id() != mainThread) return;
    uintptr_t s = reinterpret_cast<uintptr_t>(fibers[cur].stack);
    if (a >= s && a < s + STACK) return;
    if (allowed && !allowed(a, write)) hang("access out of bounds");
    inside = true;
    bool stopHere = write || hot.count(a >> 3);
    if (write) hot.insert(a >> 3);
    inside = false;
    if (stopHere) point();
}

static int teamSize()
{
    if (active) return fibers[cur].nested.empty() ? active->n : 1;
    return 1;
}
static int number() { return active && fibers[cur].nested.empty() ? cur : 0; }
static bool real() { return active && fibers[cur].nested.empty(); }

static void barrier()
{
    if (!real()) return;
    Team* t = active;
    long phase = t->phase;
    if (++t->waiting == t->n)
    {
        t->waiting = 0;
        ++t->phase;
        point();
        return;
    }
    wait([t, phase] { return t->phase != phase; });
}

// ---- work sharing
static Share serial;
static Share& share()
{
    if (!real()) return serial;
    return active->shares[fibers[cur].share];
}
static bool nextChunk(unsigned long long* a, unsigned long long* b)
{
    Share& s = share();
    if (real()) point();
    if (s.up ? s.next >= s.end : s.next <= s.end) return false;
    unsigned long long step = s.incr * s.chunk;
    *a = s.next;
    bool last = s.up ? s.end - s.next <= step : s.next - s.end <= 0 - step;
    *b = last ? s.end : s.next + step;
    s.next = *b;
    return true;
}
static bool startLoop(bool up, unsigned long long from, unsigned long long to, unsigned long long incr,
                      unsigned long long chunk, unsigned long long* a, unsigned long long* b)
{
    if (real()) ++fibers[cur].share; else serial = Share();
    Share& s = share();
    if (!s.used)
    {
        s.used = true;
        s.up = up; s.next = from; s.end = to; s.incr = incr; s.chunk = chunk ? chunk : 1;
    }
    return a ? nextChunk(a, b) : true;
}
static bool startSigned(long from, long to, long incr, long chunk, long* a, long* b)
{
    // Shifted to become unsigned without changing the order.
    unsigned long long x = 0, y = 0, off = 1ULL << 63;
    if (!startLoop(incr > 0, from + off, to + off, incr, chunk, a ? &x : nullptr, &y)) return false;
    if (a) { *a = static_cast<long>(x - off); *b = static_cast<long>(y - off); }
    return true;
}
static bool nextSigned(long* a, long* b)
{
    unsigned long long x, y, off = 1ULL << 63;
    if (!nextChunk(&x, &y)) return false;
    *a = static_cast<long>(x - off); *b = static_cast<long>(y - off);
    return true;
}

static std::map<void*, int> locks;
static void lock(void* p)
{
    if (!real()) return;
    point();
    wait([p] { return locks[p] == 0; });
    locks[p] = 1;
}
static void unlock(void* p)
{
    if (!real()) return;
    locks[p] = 0;
    point();
}
static int oneLock, atomicLock;
}

using namespace sched;
#define API __attribute__((visibility("default")))
typedef unsigned long long ull;
extern "C"
{
// ---- OpenMP
API void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
{
    team(n ? static_cast<int>(n) : active ? 1 : plan.threads, fn, data);
}
API void GOMP_barrier() { barrier(); }
API bool GOMP_barrier_cancel() { barrier(); return false; }
API void GOMP_critical_start() { lock(&oneLock); }
API void GOMP_critical_end() { unlock(&oneLock); }
API void GOMP_critical_name_start(void** p) { lock(p); }
API void GOMP_critical_name_end(void** p) { unlock(p); }
API void GOMP_atomic_start() { lock(&atomicLock); }
API void GOMP_atomic_end() { unlock(&atomicLock); }
API bool GOMP_single_start()
{
    if (!real()) return true;
    point();
    return active->singles[fibers[cur].single++]++ == 0;
}
API void GOMP_ordered_start() {}
API void GOMP_ordered_end() {}
#define SIGNED(name) \
    API bool GOMP_loop_##name##_start(long f, long t, long i, long c, long* a, long* b) \
    { return startSigned(f, t, i, c, a, b); } \
    API bool GOMP_loop_##name##_next(long* a, long* b) { return nextSigned(a, b); }
#define UNSIGNED(name) \
    API bool GOMP_loop_ull_##name##_start(bool up, ull f, ull t, ull i, ull c, ull* a, ull* b) \
    { return startLoop(up, f, t, i, c, a, b); } \
    API bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return nextChunk(a, b); }
SIGNED(static) SIGNED(dynamic) SIGNED(guided) SIGNED(nonmonotonic_dynamic) SIGNED(nonmonotonic_guided)
UNSIGNED(static) UNSIGNED(dynamic) UNSIGNED(guided) UNSIGNED(nonmonotonic_dynamic) UNSIGNED(nonmonotonic_guided)
#define RUNTIME(name) \
    API bool GOMP_loop_##name##_start(long f, long t, long i, long* a, long* b) \
    { return startSigned(f, t, i, 1, a, b); } \
    API bool GOMP_loop_##name##_next(long* a, long* b) { return nextSigned(a, b); } \
    API bool GOMP_loop_ull_##name##_start(bool up, ull f, ull t, ull i, ull* a, ull* b) \
    { return startLoop(up, f, t, i, 1, a, b); } \
    API bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return nextChunk(a, b); }
RUNTIME(runtime) RUNTIME(nonmonotonic_runtime) RUNTIME(maybe_nonmonotonic_runtime)
API void GOMP_loop_end() { barrier(); }
API void GOMP_loop_end_nowait() {}
struct LoopArgs { void (*fn)(void*); void* data; long f, t, i, c; };
static void loopBody(void* p)
{
    LoopArgs* l = static_cast<LoopArgs*>(p);
    startSigned(l->f, l->t, l->i, l->c, nullptr, nullptr);
    l->fn(l->data);
}
#define PARALLEL(name) \
    API void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long f, long t, long i, long c, unsigned) \
    { LoopArgs l{fn, d, f, t, i, c}; GOMP_parallel(loopBody, &l, n, 0); }
#define PARALLEL_RT(name) \
    API void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long f, long t, long i, unsigned) \
    { LoopArgs l{fn, d, f, t, i, 1}; GOMP_parallel(loopBody, &l, n, 0); }
PARALLEL(static) PARALLEL(dynamic) PARALLEL(guided) PARALLEL(nonmonotonic_dynamic) PARALLEL(nonmonotonic_guided)
PARALLEL_RT(runtime) PARALLEL_RT(nonmonotonic_runtime) PARALLEL_RT(maybe_nonmonotonic_runtime)
API unsigned GOMP_sections_start(unsigned n)
{
    ull a, b;
    return startLoop(true, 1, n + 1, 1, 1, &a, &b) ? a : 0;
}
API unsigned GOMP_sections_next() { ull a, b; return nextChunk(&a, &b) ? a : 0; }
API void GOMP_sections_end() { barrier(); }
API void GOMP_sections_end_nowait() {}
struct SectionArgs { void (*fn)(void*); void* data; unsigned n; };
static void sectionBody(void* p)
{
    SectionArgs* l = static_cast<SectionArgs*>(p);
    startLoop(true, 1, l->n + 1, 1, 1, nullptr, nullptr);
    l->fn(l->data);
}
API void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned)
{
    SectionArgs l{fn, d, c};
    GOMP_parallel(sectionBody, &l, n, 0);
}
// Tasks are carried out at once.
API void GOMP_task(void (*fn)(void*), void* data, void (*copy)(void*, void*), long size, long align, bool, unsigned,
                   void**, int, void*)
{
    if (real()) point();
    std::vector<char> buf(size + align);
    char* arg = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(buf.data()) + align - 1) / align * align);
    if (copy) copy(arg, data); else memcpy(arg, data, size);
    fn(arg);
}
API void GOMP_taskwait() {}
API void GOMP_taskyield() { if (real()) point(); }
API void GOMP_taskgroup_start() {}
API void GOMP_taskgroup_end() {}
API int omp_get_num_threads() { return teamSize(); }
API int omp_get_thread_num() { return number(); }
API int omp_get_max_threads() { return active ? 1 : enabled ? plan.threads : 1; }
API int omp_get_num_procs() { return plan.threads; }
API int omp_in_parallel() { return active != nullptr; }
API int omp_get_level() { return outer + (active ? 1 + static_cast<int>(fibers[cur].nested.size()) : 0); }
API int omp_get_active_level() { return active != nullptr; }
API int omp_get_thread_limit() { return 1 << 20; }
API int omp_get_dynamic() { return 0; }
API int omp_get_nested() { return 0; }
API int omp_get_max_active_levels() { return 1; }
API void omp_set_num_threads(int n) { if (n > 0) plan.threads = n; }
API void omp_set_dynamic(int) {}
API void omp_set_nested(int) {}
API void omp_set_max_active_levels(int) {}
API double omp_get_wtime() { return static_cast<double>(clock()) / CLOCKS_PER_SEC; }
API void omp_init_lock(void*) {}
API void omp_destroy_lock(void*) {}
API void omp_set_lock(void* p) { lock(p); }
API void omp_unset_lock(void* p) { unlock(p); }
API int omp_test_lock(void* p)
{
    if (!real()) return 1;
    point();
    if (locks[p]) return 0;
    return locks[p] = 1;
}

// ---- instrumentation
API void __tsan_init() {}
API void __tsan_func_entry(void*) {}
API void __tsan_func_exit() {}
API void __tsan_vptr_update(void**, void*) {}
API void __tsan_vptr_read(void**) {}
API void __tsan_read_range(void* p, unsigned long) { access(reinterpret_cast<uintptr_t>(p), false); }
API void* __tsan_memcpy(void* d, const void* f, unsigned long n)
{
    for (unsigned long k = 0; k < n; k += 8) access(reinterpret_cast<uintptr_t>(f) + k, false);
    for (unsigned long k = 0; k < n; k += 8) access(reinterpret_cast<uintptr_t>(d) + k, true);
    return memcpy(d, f, n);
}
API void* __tsan_memmove(void* d, const void* f, unsigned long n)
{
    for (unsigned long k = 0; k < n; k += 8) access(reinterpret_cast<uintptr_t>(f) + k, false);
    for (unsigned long k = 0; k < n; k += 8) access(reinterpret_cast<uintptr_t>(d) + k, true);
    return memmove(d, f, n);
}
API void* __tsan_memset(void* d, int c, unsigned long n)
{
    for (unsigned long k = 0; k < n; k += 8) access(reinterpret_cast<uintptr_t>(d) + k, true);
    return memset(d, c, n);
}
API void __tsan_write_range(void* p, unsigned long n)
{
    for (unsigned long k = 0; k < n; k += 8) access(reinterpret_cast<uintptr_t>(p) + k, true);
}
#define RW(n) \
    API void __tsan_read##n(void* p) { access(reinterpret_cast<uintptr_t>(p), false); } \
    API void __tsan_write##n(void* p) { access(reinterpret_cast<uintptr_t>(p), true); } \
    API void __tsan_unaligned_read##n(void* p) { access(reinterpret_cast<uintptr_t>(p), false); } \
    API void __tsan_unaligned_write##n(void* p) { access(reinterpret_cast<uintptr_t>(p), true); } \
    API void __tsan_volatile_read##n(void* p) { access(reinterpret_cast<uintptr_t>(p), false); } \
    API void __tsan_volatile_write##n(void* p) { access(reinterpret_cast<uintptr_t>(p), true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define ATOMIC(bits, T) \
    API T __tsan_atomic##bits##_load(const volatile T* p, int) \
    { access((uintptr_t)p, true); return __atomic_load_n(p, 5); } \
    API void __tsan_atomic##bits##_store(volatile T* p, T v, int) \
    { access((uintptr_t)p, true); __atomic_store_n(p, v, 5); } \
    API T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) \
    { access((uintptr_t)p, true); return __atomic_exchange_n(p, v, 5); } \
    API T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) \
    { access((uintptr_t)p, true); return __atomic_fetch_add(p, v, 5); } \
    API T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) \
    { access((uintptr_t)p, true); return __atomic_fetch_sub(p, v, 5); } \
    API T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) \
    { access((uintptr_t)p, true); return __atomic_fetch_and(p, v, 5); } \
    API T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) \
    { access((uintptr_t)p, true); return __atomic_fetch_or(p, v, 5); } \
    API T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) \
    { access((uintptr_t)p, true); return __atomic_fetch_xor(p, v, 5); } \
    API T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) \
    { access((uintptr_t)p, true); return __atomic_fetch_nand(p, v, 5); } \
    API int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) \
    { access((uintptr_t)p, true); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    API int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) \
    { access((uintptr_t)p, true); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    API T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) \
    { access((uintptr_t)p, true); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned) ATOMIC(64, unsigned long)
API void __tsan_atomic_thread_fence(int) { if (real()) point(); }
API void __tsan_atomic_signal_fence(int) {}
API void AnnotateHappensBefore(const char*, int, void*) {}
API void AnnotateHappensAfter(const char*, int, void*) {}
}
