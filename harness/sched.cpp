#include "sched.hpp"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" int __real_pthread_create(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*);
extern "C" void* __real_memcpy(void*, void const*, size_t);
extern "C" void* __real_memmove(void*, void const*, size_t);

namespace sched
{
Sched* Sched::cur = nullptr;
static thread_local Thr* t_me = nullptr;
static std::vector<Thr*> pool;          // idle real threads, used again by later executions

Thr* Sched::me() { return t_me; }
Quiet::Quiet() { if (t_me) t_me->quiet++; }
Quiet::~Quiet() { if (t_me) t_me->quiet--; }

static void futexWait(int* a)
{
    for (int i = 0; i < 200; ++i) { if (__atomic_load_n(a, __ATOMIC_ACQUIRE)) { __atomic_store_n(a, 0, __ATOMIC_RELAXED); return; } __builtin_ia32_pause(); }
    while (!__atomic_load_n(a, __ATOMIC_ACQUIRE)) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(a, 0, __ATOMIC_RELAXED);
}
static void futexPost(int* a)
{
    __atomic_store_n(a, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void* threadMain(void* p)
{
    auto* t = static_cast<Thr*>(p);
    pthread_attr_t a;
    pthread_getattr_np(pthread_self(), &a);
    void* lo;
    size_t n;
    pthread_attr_getstack(&a, &lo, &n);
    pthread_attr_destroy(&a);
    t->stackLo = (std::uintptr_t)lo;
    t->stackHi = t->stackLo + n;
    for (;;)
    {
        futexWait(&t->turn);
        t_me = t;
        Sched::cur->main_(t);
    }
    return nullptr;
}

void resetLocks();
Sched::Sched(mc::Run& r_) : r(r_) { cur = this; resetLocks(); }
Sched::~Sched()
{
    finish();
    for (auto* t : threads) { t->st = Thr::St::idle; t->body = nullptr; t->wake = nullptr; pool.push_back(t); }
    std::sort(pool.begin(), pool.end(), [](Thr* a, Thr* b) { return a->handle > b->handle; });
    cur = nullptr;
}
int Sched::spawn(std::string const& name, std::function<void()> body)
{
    Thr* t;
    static unsigned long made = 0;
    if (pool.empty())
    {
        t = new Thr;
        t->handle = ++made;
        pthread_t h;
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, 1 << 19);
        __real_pthread_create(&h, &a, threadMain, t);
        pthread_attr_destroy(&a);
    }
    else { t = pool.back(); pool.pop_back(); }
    t->id = threads.size();
    t->name = name;
    t->body = std::move(body);
    t->st = Thr::St::ready;
    t->quiet = 0;
    t->steps = t->alone = 0;
    t->atEpoll = false;
    threads.push_back(t);
    return t->id;
}
// entered with the baton; leaves it to somebody else
void Sched::main_(Thr* t)
{
    t->body();
    t->quiet++;
    t->st = Thr::St::done;
    next(t);
}
void Sched::pass(Thr* to)
{
    ++switches;
    if (to) { to->alone = 0; futexPost(&to->turn); }
    else futexPost(&mainTurn);
}
void Sched::wait(Thr* self) { futexWait(&self->turn); }

// who may run next; null when nobody can
Thr* Sched::pick(bool)
{
    Thr* can[16];
    int n = 0;
    for (auto* t : threads)
        if (t->st == Thr::St::ready || (t->st == Thr::St::blocked && (free || t->wake()))) can[n++] = t;
    if (!n) return nullptr;
    return can[n > 1 && !free ? r.choose(n, "next thread") : 0];
}
// the calling thread can not continue
void Sched::next(Thr* self)
{
    Thr* n = pick(true);
    if (n == self) { return; }
    bool const done = self->st == Thr::St::done;
    pass(n);
    if (!done) wait(self);
}
void Sched::block(std::function<bool()> wake, bool epoll)
{
    Thr* t = t_me;
    if (!t || free) return;
    Quiet q;
    while (!wake())
    {
        t->st = Thr::St::blocked;
        t->wake = wake;
        t->atEpoll = epoll;
        next(t);
        t->st = Thr::St::ready;
        t->atEpoll = false;
        if (free) return;
    }
}
void Sched::point(char const* what)
{
    Thr* t = t_me;
    if (!t || t->quiet || free) return;
    t->quiet++;
    ++points;
    ++t->steps;
    ++t->alone;
    bool const spin = t->alone > 20000;         // a thread that waits actively for another one
    if (!r.stopped() && (budget > 0 || spin))
    {
        Thr* can[16];
        int n = 0;
        for (auto* o : threads)
            if (o != t && (o->st == Thr::St::ready || (o->st == Thr::St::blocked && o->wake()))) can[n++] = o;
        if (n)
        {
            int c = spin ? 1 + r.choose(n, "spin") : r.choose(n + 1, "preempt");
            if (c)
            {
                if (!spin) --budget;
                r.note(t->name + " is preempted at " + what + " by " + can[c - 1]->name);
                pass(can[c - 1]);
                wait(t);
            }
        }
    }
    t->quiet--;
}
bool Sched::run()
{
    Thr* n = pick(true);
    if (n) { pass(n); futexWait(&mainTurn); }
    for (auto* t : threads)
        if (t->st == Thr::St::ready || (t->st == Thr::St::blocked && !t->atEpoll)) return false;
    return true;
}
bool Sched::allDone() const { for (auto* t : threads) if (t->st != Thr::St::done) return false; return true; }
void Sched::finish()
{
    free = true;
    for (int i = 0; i < 100 && !allDone(); ++i) run();
    if (!allDone()) { std::fprintf(stderr, "threads do not end\n"); std::abort(); }
}
} // namespace sched

// ---- locks --------------------------------------------------------------------------------------------------------
namespace
{
struct Lock { sched::Thr* owner = nullptr; int depth = 0; };
std::map<void*, Lock> locks;
std::map<void*, std::uint64_t> conds;
int lock(void* m, bool tryOnly)
{
    auto* s = sched::Sched::cur;
    auto* t = s ? sched::Sched::me() : nullptr;
    if (!t) return 0;
    s->point("lock");
    t->quiet++;
    auto& l = locks[m];
    int rc = 0;
    if (l.owner == t && !s->free && l.depth && !tryOnly) { s->r.fail("a thread locks a mutex it already holds"); }
    if (tryOnly && l.owner && l.owner != t) rc = EBUSY;
    else
    {
        s->block([&l] { return l.owner == nullptr; });
        l.owner = t;
        l.depth = 1;
    }
    t->quiet--;
    return rc;
}
int unlock(void* m)
{
    auto* s = sched::Sched::cur;
    auto* t = s ? sched::Sched::me() : nullptr;
    if (!t) return 0;
    locks[m].owner = nullptr;
    s->point("unlock");
    return 0;
}
} // namespace
void sched::resetLocks() { locks.clear(); conds.clear(); }
extern "C"
{
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return lock(m, false); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return unlock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return lock(m, true); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return lock(m, false); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return lock(m, false); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { return unlock(m); }
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { return lock((void*)m, false); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { return unlock((void*)m); }
int __wrap_sched_yield()
{
    if (auto* s = sched::Sched::cur) s->point("yield");
    return 0;
}
void* __wrap_memcpy(void* d, void const* s, size_t n);
void* __wrap_memmove(void* d, void const* s, size_t n);
}

// ---- memory accesses of the instrumented code -----------------------------------------------------------------------
static inline void access(void const* p, char const* what)
{
    auto* t = sched::Sched::me();
    if (__builtin_expect(!t || t->quiet, 1)) return;
    auto* s = sched::Sched::cur;
    if (!s->accesses || s->free) return;
    auto a = (std::uintptr_t)p;
    if (a >= t->stackLo && a < t->stackHi) return;
    s->point(what);
}
static inline void atomicAccess(void const* p)
{
    auto* t = sched::Sched::me();
    if (__builtin_expect(!t || t->quiet, 1)) return;
    sched::Sched::cur->point("atomic");
}
static void* copy(void* d, void const* s, size_t n, bool move)
{
    auto* t = sched::Sched::me();
    if (t && !t->quiet && n > 1)
    {
        access(s, "copy");
        access(d, "copy");
        if (!move)
        {
            // the bytes of a copy can be interrupted as well
            __real_memcpy(d, s, n / 2);
            access(s, "copy");
            access(d, "copy");
            __real_memcpy((char*)d + n / 2, (char const*)s + n / 2, n - n / 2);
            access(s, "copy");
            return d;
        }
    }
    return __real_memmove(d, s, n);
}
extern "C"
{
void* __wrap_memcpy(void* d, void const* s, size_t n) { return copy(d, s, n, false); }
void* __wrap_memmove(void* d, void const* s, size_t n) { return copy(d, s, n, true); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, "write"); }
void __tsan_vptr_read(void** p) { access(p, "read"); }
#define RW(N) \
    void __tsan_read##N(void* p) { access(p, "read"); } \
    void __tsan_write##N(void* p) { access(p, "write"); } \
    void __tsan_unaligned_read##N(void* p) { access(p, "read"); } \
    void __tsan_unaligned_write##N(void* p) { access(p, "write"); } \
    void __tsan_volatile_read##N(void* p) { access(p, "read"); } \
    void __tsan_volatile_write##N(void* p) { access(p, "write"); } \
    void __tsan_unaligned_volatile_read##N(void* p) { access(p, "read"); } \
    void __tsan_unaligned_volatile_write##N(void* p) { access(p, "write"); } \
    void __tsan_read##N##_pc(void* p, void*) { access(p, "read"); } \
    void __tsan_write##N##_pc(void* p, void*) { access(p, "write"); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long) { access(p, "read"); }
void __tsan_write_range(void* p, unsigned long) { access(p, "write"); }
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
#define AT(B, T) \
    T __tsan_atomic##B##_load(T const volatile* p, int) { atomicAccess((void*)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(T volatile* p, T v, int) { atomicAccess((void*)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_exchange(T volatile* p, T v, int) { atomicAccess((void*)p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_add(T volatile* p, T v, int) { atomicAccess((void*)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_sub(T volatile* p, T v, int) { atomicAccess((void*)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_and(T volatile* p, T v, int) { atomicAccess((void*)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_or(T volatile* p, T v, int) { atomicAccess((void*)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_xor(T volatile* p, T v, int) { atomicAccess((void*)p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_nand(T volatile* p, T v, int) { atomicAccess((void*)p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(T volatile* p, T* e, T v, int, int) { atomicAccess((void*)p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_weak(T volatile* p, T* e, T v, int, int) { atomicAccess((void*)p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_compare_exchange_val(T volatile* p, T e, T v, int, int) { atomicAccess((void*)p); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
}

// ---- condition variables (called from libstdc++ as well) ----------------------------------------------------------------
extern "C"
{
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    auto* s = sched::Sched::cur;
    auto* t = s ? sched::Sched::me() : nullptr;
    if (!t) return 0;
    auto const seen = conds[c];
    unlock(m);
    s->block([c, seen] { return conds[c] != seen; });
    return lock(m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const*) { return pthread_cond_wait(c, m); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, timespec const*) { return pthread_cond_wait(c, m); }
int pthread_cond_signal(pthread_cond_t* c) { if (auto* s = sched::Sched::cur) { s->point("signal"); conds[c]++; } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { return pthread_cond_signal(c); }
}
