// OpenMP on POSIX threads, in the executable (it takes the place of libgomp): ThreadSanitizer sees all
// synchronisation, and the number of threads is set per call.
#pragma once
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

extern "C" {
void AnnotateIgnoreReadsBegin(const char* f, int l) __attribute__((weak));
void AnnotateIgnoreReadsEnd(const char* f, int l) __attribute__((weak));
void AnnotateIgnoreWritesBegin(const char* f, int l) __attribute__((weak));
void AnnotateIgnoreWritesEnd(const char* f, int l) __attribute__((weak));
}

namespace gomp {

struct Share {
    std::mutex m;
    long next, end, incr, chunk;
    bool started = false;
    bool single = false;
};

struct Team {
    size_t n;
    std::mutex m;
    std::condition_variable cv;
    size_t waiting = 0, phase = 0;
    std::deque<std::unique_ptr<Share>> shares;
    std::mutex critical;

    Share& share(size_t i)
    {
        std::lock_guard<std::mutex> l(m);
        while (shares.size() <= i) {
            shares.emplace_back(new Share());
        }
        return *shares[i];
    }

    void barrier()
    {
        std::unique_lock<std::mutex> l(m);
        size_t p = phase;
        if (++waiting == n) {
            waiting = 0;
            ++phase;
            cv.notify_all();
            return;
        }
        cv.wait(l, [&]() { return phase != p; });
    }
};

static unsigned threads = 1; // size of the next team
static bool ignore = false; // do not report races
static size_t regions = 0; // number of regions with several threads
static thread_local Team* team = nullptr;
static thread_local size_t self = 0;
static thread_local size_t counter = 0;
static std::mutex global;

inline void quiet(bool on)
{
    if (AnnotateIgnoreWritesBegin == nullptr || !ignore) {
        return;
    }
    if (on) {
        AnnotateIgnoreReadsBegin(__FILE__, __LINE__);
        AnnotateIgnoreWritesBegin(__FILE__, __LINE__);
    }
    else {
        AnnotateIgnoreWritesEnd(__FILE__, __LINE__);
        AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
    }
}

inline void parallel(void (*fn)(void*), void* data, unsigned num)
{
    unsigned n = num > 0 ? std::min(num, threads) : threads;
    if (n <= 1 || team != nullptr) { // nested: one thread
        Team* t = team;
        size_t s = self, c = counter;
        Team one;
        one.n = 1;
        team = &one;
        self = 0;
        counter = 0;
        fn(data);
        team = t;
        self = s;
        counter = c;
        return;
    }
    ++regions;
    Team t;
    t.n = n;
    // all threads are there before the first starts: as in a pool of threads
    auto body = [&](size_t i) {
        team = &t;
        self = i;
        counter = 0;
        quiet(true);
        fn(data);
        quiet(false);
        team = nullptr;
    };
    std::mutex m;
    std::condition_variable cv;
    size_t ready = 0;
    std::vector<std::thread> pool;
    for (size_t i = 1; i < n; ++i) {
        pool.emplace_back([&, i]() {
            {
                std::unique_lock<std::mutex> l(m);
                ++ready;
                cv.notify_all();
                cv.wait(l, [&]() { return ready == n; });
            }
            body(i);
        });
    }
    {
        std::unique_lock<std::mutex> l(m);
        ++ready;
        cv.notify_all();
        cv.wait(l, [&]() { return ready == n; });
    }
    body(0);
    for (auto& p : pool) {
        p.join();
    }
    self = 0;
}

inline bool next(Share& s, long* a, long* b)
{
    std::lock_guard<std::mutex> l(s.m);
    if (s.incr > 0 ? s.next >= s.end : s.next <= s.end) {
        return false;
    }
    *a = s.next;
    long e = s.next + s.chunk * s.incr;
    *b = s.incr > 0 ? std::min(e, s.end) : std::max(e, s.end);
    s.next = *b;
    return true;
}

inline bool start(long a, long b, long incr, long chunk, long* i, long* j)
{
    Share& s = team->share(counter++);
    {
        std::lock_guard<std::mutex> l(s.m);
        if (!s.started) {
            s.started = true;
            s.next = a;
            s.end = b;
            s.incr = incr;
            s.chunk = chunk > 0 ? chunk : 1;
        }
    }
    return next(s, i, j);
}

} // namespace gomp

extern "C" {

int omp_get_num_threads()
{
    return gomp::team ? static_cast<int>(gomp::team->n) : 1;
}
int omp_get_thread_num()
{
    return gomp::team ? static_cast<int>(gomp::self) : 0;
}
int omp_get_max_threads()
{
    return gomp::team ? 1 : static_cast<int>(gomp::threads);
}
int omp_in_parallel()
{
    return gomp::team && gomp::team->n > 1;
}
int omp_get_num_procs()
{
    return static_cast<int>(gomp::threads);
}
int omp_get_level()
{
    return gomp::team ? 1 : 0;
}
void omp_set_num_threads(int n)
{
    gomp::threads = n > 0 ? static_cast<unsigned>(n) : 1;
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned num, unsigned)
{
    gomp::parallel(fn, data, num);
}
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned num, unsigned)
{
    gomp::parallel(fn, data, num);
    return gomp::threads;
}
void GOMP_barrier()
{
    if (gomp::team) {
        gomp::team->barrier();
    }
}
void GOMP_critical_start()
{
    gomp::global.lock();
}
void GOMP_critical_end()
{
    gomp::global.unlock();
}
void GOMP_critical_name_start(void**)
{
    gomp::global.lock();
}
void GOMP_critical_name_end(void**)
{
    gomp::global.unlock();
}
void GOMP_atomic_start()
{
    gomp::global.lock();
}
void GOMP_atomic_end()
{
    gomp::global.unlock();
}
bool GOMP_single_start()
{
    if (!gomp::team) {
        return true;
    }
    auto& s = gomp::team->share(gomp::counter++);
    std::lock_guard<std::mutex> l(s.m);
    bool r = !s.single;
    s.single = true;
    return r;
}
void GOMP_loop_end()
{
    GOMP_barrier();
}
void GOMP_loop_end_nowait()
{
}
static bool gomp_next(long* a, long* b)
{
    return gomp::next(gomp::team->share(gomp::counter - 1), a, b);
}
static bool gomp_unext(unsigned long long* a, unsigned long long* b)
{
    long i, j;
    if (!gomp_next(&i, &j)) {
        return false;
    }
    *a = static_cast<unsigned long long>(i);
    *b = static_cast<unsigned long long>(j);
    return true;
}
static bool gomp_ustart(bool up, unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long chunk, unsigned long long* a, unsigned long long* b)
{
    (void)up;
    long i, j;
    if (!gomp::start(static_cast<long>(s), static_cast<long>(e), static_cast<long>(incr), static_cast<long>(chunk), &i, &j)) {
        return false;
    }
    *a = static_cast<unsigned long long>(i);
    *b = static_cast<unsigned long long>(j);
    return true;
}
#define GOMP_LOOP(kind)                                                                                                        \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* a, long* b)                                            \
    {                                                                                                                          \
        return gomp::start(s, e, i, c, a, b);                                                                                  \
    }                                                                                                                          \
    bool GOMP_loop_##kind##_next(long* a, long* b)                                                                             \
    {                                                                                                                          \
        return gomp_next(a, b);                                                                                                \
    }                                                                                                                          \
    bool GOMP_loop_ull_##kind##_start(                                                                                         \
        bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) \
    {                                                                                                                          \
        return gomp_ustart(up, s, e, i, c, a, b);                                                                              \
    }                                                                                                                          \
    bool GOMP_loop_ull_##kind##_next(unsigned long long* a, unsigned long long* b)                                             \
    {                                                                                                                          \
        return gomp_unext(a, b);                                                                                               \
    }
GOMP_LOOP(static)
GOMP_LOOP(dynamic)
GOMP_LOOP(guided)
GOMP_LOOP(nonmonotonic_dynamic)
GOMP_LOOP(nonmonotonic_guided)
#undef GOMP_LOOP
#define GOMP_LOOP(kind)                                                                                                        \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long* a, long* b)                                                    \
    {                                                                                                                          \
        return gomp::start(s, e, i, 1, a, b);                                                                                  \
    }                                                                                                                          \
    bool GOMP_loop_##kind##_next(long* a, long* b)                                                                             \
    {                                                                                                                          \
        return gomp_next(a, b);                                                                                                \
    }                                                                                                                          \
    bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) \
    {                                                                                                                          \
        return gomp_ustart(up, s, e, i, 1, a, b);                                                                              \
    }                                                                                                                          \
    bool GOMP_loop_ull_##kind##_next(unsigned long long* a, unsigned long long* b)                                             \
    {                                                                                                                          \
        return gomp_unext(a, b);                                                                                               \
    }
GOMP_LOOP(runtime)
GOMP_LOOP(nonmonotonic_runtime)
GOMP_LOOP(maybe_nonmonotonic_runtime)
#undef GOMP_LOOP

// Combined "parallel for": the loop is set up by the caller
struct gomp_loop_data {
    void (*fn)(void*);
    void* data;
    long s, e, i, c;
};
static void gomp_run(void* p)
{
    auto* d = static_cast<gomp_loop_data*>(p);
    long a, b;
    // the body asks for chunks with "next" only: initialise
    auto& share = gomp::team->share(gomp::counter++);
    {
        std::lock_guard<std::mutex> l(share.m);
        if (!share.started) {
            share.started = true;
            share.next = d->s;
            share.end = d->e;
            share.incr = d->i;
            share.chunk = d->c > 0 ? d->c : 1;
        }
    }
    (void)a;
    (void)b;
    d->fn(d->data);
}
#define GOMP_PARALLEL_LOOP(kind)                                                                                               \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned)       \
    {                                                                                                                          \
        gomp_loop_data d{fn, data, s, e, i, c};                                                                                \
        gomp::parallel(gomp_run, &d, n);                                                                                       \
    }
GOMP_PARALLEL_LOOP(static)
GOMP_PARALLEL_LOOP(dynamic)
GOMP_PARALLEL_LOOP(guided)
GOMP_PARALLEL_LOOP(nonmonotonic_dynamic)
GOMP_PARALLEL_LOOP(nonmonotonic_guided)
#undef GOMP_PARALLEL_LOOP
#define GOMP_PARALLEL_LOOP(kind)                                                                                               \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned)               \
    {                                                                                                                          \
        gomp_loop_data d{fn, data, s, e, i, 1};                                                                                \
        gomp::parallel(gomp_run, &d, n);                                                                                       \
    }
GOMP_PARALLEL_LOOP(runtime)
GOMP_PARALLEL_LOOP(nonmonotonic_runtime)
GOMP_PARALLEL_LOOP(maybe_nonmonotonic_runtime)
#undef GOMP_PARALLEL_LOOP
}
