// Controlled scheduler. The iterations of a parallel loop run on threads of their own, one at a time; control changes
// hands only at scheduling points: lock operations, and (in units compiled with -fsanitize=thread, whose callbacks are
// implemented here instead of by the real runtime) every access to memory of the loop's caller's stack frame.
#pragma once
#include "hio.hpp"
#include <algorithm>
#include <dlfcn.h>
#include <functional>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <thread>

namespace hsched {

struct Task
{
    long index = -1;
    sem_t go;
    bool started = false, finished = false, blocked = false;
    long budget = 0;   // scheduling points it may still pass in this segment
    long points = 0;   // points passed in total
    bool armed = false; // memory points only count once armed
    std::thread th;
};

inline thread_local Task* self = nullptr;
inline thread_local long current = -1; // iteration being executed by this thread
inline sem_t baton;
inline uintptr_t stackLo = 0, stackHi = 0;
inline bool active = false;

// the plan: which iterations are interleaved, and the segments (task position, number of points)
inline std::vector<long> live;
inline std::vector<std::pair<long, long>> segments;
inline std::vector<long> pointCounts;
inline long callNumber = 0;        // parallel loops seen since the last reset
inline long controlledCall = 1;    // which of them is interleaved
inline std::function<bool()> shouldControl; // optional: decides instead of controlledCall

inline void yield_to_controller()
{
    Task* me = self;
    sem_post(&baton);
    sem_wait(&me->go);
}

inline void point()
{
    if (self == nullptr)
        return;
    self->points++;
    if (self->budget <= 0)
        yield_to_controller();
    self->budget--;
}

inline void memory_point(const void* p)
{
    if (self == nullptr or not self->armed)
        return;
    const uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if (a >= stackLo and a < stackHi)
        point();
}

__attribute__((noinline)) inline void run_parallel_impl(long n, const std::function<void(long)>& body)
{
    callNumber++;
    const bool control = shouldControl ? shouldControl() : (callNumber == controlledCall);
    if (not control or self != nullptr)
    {
        for (long i = 0; i < n; ++i)
        {
            current = i;
            body(i);
        }
        current = -1;
        return;
    }
    // stack of the caller: from here up to the base of the stack
    pthread_attr_t at;
    pthread_getattr_np(pthread_self(), &at);
    void* base;
    size_t size;
    pthread_attr_getstack(&at, &base, &size);
    pthread_attr_destroy(&at);
    stackLo = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
    stackHi = reinterpret_cast<uintptr_t>(base) + size;

    std::vector<long> order;
    for (long l: live)
        if (l < n)
            order.push_back(l);
    const long firstLive = order.empty() ? n : *std::min_element(order.begin(), order.end());
    auto isLive = [&](long i) { return std::find(order.begin(), order.end(), i) != order.end(); };
    for (long i = 0; i < firstLive; ++i)
    {
        current = i;
        body(i);
    }
    current = -1;
    sem_init(&baton, 0, 0);
    std::vector<std::unique_ptr<Task>> tasks;
    for (long l: order)
    {
        tasks.push_back(std::make_unique<Task>());
        Task* t = tasks.back().get();
        t->index = l;
        sem_init(&t->go, 0, 0);
        t->th = std::thread([t, &body]() {
            sem_wait(&t->go);
            self = t;
            current = t->index;
            body(t->index);
            current = -1;
            self = nullptr;
            t->finished = true;
            sem_post(&baton);
        });
    }
    auto step = [&](Task* t, long budget) {
        if (t->finished)
            return;
        t->budget = budget;
        sem_post(&t->go);
        sem_wait(&baton);
    };
    for (const auto& [pos, budget]: segments)
        if (pos < static_cast<long>(tasks.size()))
            step(tasks[pos].get(), budget);
    bool again = true;
    while (again)
    {
        again = false;
        for (auto& t: tasks)
            if (not t->finished)
            {
                again = true;
                step(t.get(), 1 << 30);
            }
    }
    pointCounts.clear();
    for (auto& t: tasks)
    {
        t->th.join();
        pointCounts.push_back(t->points);
        sem_destroy(&t->go);
    }
    for (long i = firstLive; i < n; ++i)
        if (not isLive(i))
        {
            current = i;
            body(i);
        }
    current = -1;
}
inline void arm()
{
    if (self != nullptr)
        self->armed = true;
}
} // namespace hsched

#ifdef HSCHED_IMPL
namespace hsched {
void run_parallel(long n, const std::function<void(long)>& body) { run_parallel_impl(n, body); }
} // namespace hsched

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto real = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    if (hsched::self == nullptr)
        return real(m);
    hsched::point();
    while (pthread_mutex_trylock(m) != 0)
    {
        hsched::self->blocked = true;
        hsched::yield_to_controller();
        hsched::self->blocked = false;
    }
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto real = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
    const int r = real(m);
    hsched::point();
    return r;
}

// ---- callbacks of -fsanitize=thread instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define HS_ACC(n)                                                                                                      \
    void __tsan_read##n(void* p) { hsched::memory_point(p); }                                                          \
    void __tsan_write##n(void* p) { hsched::memory_point(p); }                                                         \
    void __tsan_unaligned_read##n(void* p) { hsched::memory_point(p); }                                                \
    void __tsan_unaligned_write##n(void* p) { hsched::memory_point(p); }                                               \
    void __tsan_volatile_read##n(void* p) { hsched::memory_point(p); }                                                 \
    void __tsan_volatile_write##n(void* p) { hsched::memory_point(p); }                                                \
    void __tsan_read##n##_pc(void* p, void*) { hsched::memory_point(p); }                                              \
    void __tsan_write##n##_pc(void* p, void*) { hsched::memory_point(p); }
HS_ACC(1) HS_ACC(2) HS_ACC(4) HS_ACC(8) HS_ACC(16)
void __tsan_read_range(void* p, unsigned long) { hsched::memory_point(p); }
void __tsan_write_range(void* p, unsigned long) { hsched::memory_point(p); }
void __tsan_vptr_update(void** p, void*) { hsched::memory_point(p); }
void __tsan_vptr_read(void** p) { hsched::memory_point(p); }
#define HS_ATO(bits, T)                                                                                                \
    T __tsan_atomic##bits##_load(const volatile T* a, int)                                                             \
    {                                                                                                                  \
        hsched::memory_point((const void*)a);                                                                          \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                   \
    }                                                                                                                  \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int)                                                          \
    {                                                                                                                  \
        hsched::memory_point((const void*)a);                                                                          \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int)                                                          \
    {                                                                                                                  \
        hsched::memory_point((const void*)a);                                                                          \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int)                                                         \
    {                                                                                                                  \
        hsched::memory_point((const void*)a);                                                                          \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int)                                                         \
    {                                                                                                                  \
        hsched::memory_point((const void*)a);                                                                          \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int)                                                         \
    {                                                                                                                  \
        hsched::memory_point((const void*)a);                                                                          \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int)                                                          \
    {                                                                                                                  \
        hsched::memory_point((const void*)a);                                                                          \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                              \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int)                                                         \
    {                                                                                                                  \
        hsched::memory_point((const void*)a);                                                                          \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int)                              \
    {                                                                                                                  \
        hsched::memory_point((const void*)a);                                                                          \
        return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                            \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int)                                \
    {                                                                                                                  \
        hsched::memory_point((const void*)a);                                                                          \
        return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                            \
    }                                                                                                                  \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int)                                    \
    {                                                                                                                  \
        hsched::memory_point((const void*)a);                                                                          \
        __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                  \
        return c;                                                                                                      \
    }
HS_ATO(8, unsigned char) HS_ATO(16, unsigned short) HS_ATO(32, unsigned int) HS_ATO(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
#endif
