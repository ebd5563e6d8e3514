// Runs two threads under a controlled scheduler, one at a time, and explores
// the schedules. The code under test is compiled with -fsanitize=thread but
// linked without its run-time library: the __tsan_ functions are defined here.
//
// Scheduling points are the synchronization operations (atomics, mutexes,
// once-flags, guards of function-local statics). Between these, conflicting
// accesses of the two threads that are not ordered by synchronization are
// reported as data races. Code that is free of data races in every schedule of
// its synchronization operations has no other behaviours than these schedules.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <dlfcn.h>
#include <clocale>
#include <errno.h>
#include <link.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sched
{
    struct Clock
    {
        uint32_t c[2] = {0, 0};
        void join(const Clock& o)
        {
            for (int i = 0; i < 2; ++i)
                c[i] = c[i] < o.c[i] ? o.c[i] : c[i];
        }
    };

    enum Kind {READ, WRITE, AREAD, AWRITE};

    struct Granule // eight bytes
    {
        uint32_t at[4][2][8] = {}; // [kind][thread][byte]
    };

    struct Mutex
    {
        int owner = -1;
        int depth = 0;
        int readers[2] = {0, 0};
    };

    struct State
    {
        std::function<std::string()> body[2];
        std::string result[2];
        pthread_t thread[2];
        sem_t baton[2];
        bool finished[2] = {false, false};
        int turn = 0;
        Clock clock[2];
        std::unordered_map<uintptr_t, Granule> shadow;
        std::unordered_map<uintptr_t, Clock> objects;
        std::unordered_map<uintptr_t, Mutex> mutexes;
        std::unordered_map<uintptr_t, int> guards; // 1: being initialized by thread 0, 2: by thread 1
        std::unordered_map<uintptr_t, uint64_t> signals;
        uintptr_t stack[2][2] = {};
        int mode = 0;                     // 1: points also at function entries, 2: and at accesses
        std::vector<uint32_t> preempt;    // points at which to preempt
        size_t next_preempt = 0;
        uint32_t points = 0;
        std::vector<bool> possible;      // whether the other thread could run at each point
        uint64_t accesses = 0;
        uint32_t same_thread = 0;        // points since the last switch
        uint32_t stuck = 0;              // waits without progress
        std::string problem;
        int fd = -1;
    };

    inline State* g = nullptr;
    inline thread_local int me = -1;       // index of a scheduled thread
    inline thread_local int inside = 0;    // in the run-time itself

    struct Inside
    {
        Inside() { ++inside; }
        ~Inside() { --inside; }
    };

    inline bool active() { return me >= 0 && !inside; }

    // The code of the shared objects under test. The locks that the C++
    // run-time library takes for itself (to unwind the stack, say) are neither
    // scheduling points nor do they order the accesses of the code under test.
    inline std::vector<std::pair<uintptr_t, uintptr_t>> code;

    inline void find_code()
    {
        dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) -> int
        {
            if (i->dlpi_name && (strstr(i->dlpi_name, "libys.so") || strstr(i->dlpi_name, "libself.so")))
            {
                for (int k = 0; k < i->dlpi_phnum; ++k)
                {
                    auto& h = i->dlpi_phdr[k];
                    if (h.p_type == PT_LOAD && (h.p_flags & PF_X))
                        code.push_back({i->dlpi_addr + h.p_vaddr, i->dlpi_addr + h.p_vaddr + h.p_memsz});
                }
            }
            return 0;
        }, nullptr);
        if (code.size() < 2)
            _exit(3);
    }

    inline bool active(const void* pc)
    {
        if (!active())
            return false;
        for (auto& [b, e] : code)
        {
            if (uintptr_t(pc) >= b && uintptr_t(pc) <= e)
                return true;
        }
        return false;
    }

    inline std::string where(const void* p)
    {
        Dl_info i;
        if (p && dladdr(p, &i) && i.dli_sname)
            return i.dli_sname;
        return "an unnamed location";
    }

    inline void put_all(int fd, const std::string& s)
    {
        size_t done = 0;
        while (done < s.size())
        {
            auto n = write(fd, s.data() + done, s.size() - done);
            if (n <= 0)
                _exit(3);
            done += size_t(n);
        }
    }

    // Ends the process of this schedule.
    [[noreturn]] inline void report()
    {
        auto add = [](std::string& o, const void* p, size_t n) { o.append(static_cast<const char*>(p), n); };
        std::string o;
        auto text = [&](const std::string& s)
        {
            auto n = uint32_t(s.size());
            add(o, &n, 4);
            o += s;
        };
        text(g->problem);
        text(g->result[0]);
        text(g->result[1]);
        add(o, &g->accesses, 8);
        std::string p;
        for (bool b : g->possible)
            p += b ? '1' : '0';
        text(p);
        o += g->next_preempt == g->preempt.size() ? '1' : '0';
        put_all(g->fd, o);
        _exit(0);
    }

    [[noreturn]] inline void fail(const std::string& s)
    {
        g->problem = s;
        report();
    }

    inline void hand_over()
    {
        int other = 1 - me;
        g->turn = other;
        g->same_thread = 0;
        sem_post(&g->baton[other]);
        while (sem_wait(&g->baton[me]))
        {}
    }

    // This thread cannot go on until the other has done something.
    inline void blocked(const char* what)
    {
        if (g->finished[1 - me])
            fail(std::string("the threads deadlock: ") + what + " waits for ever");
        if (++g->stuck > 8)
            fail(std::string("the threads deadlock: ") + what + " waits for ever");
        hand_over();
    }

    // A point where the other thread can be scheduled.
    inline void point()
    {
        g->stuck = 0;
        bool can = !g->finished[1 - me];
        auto k = g->points++;
        if (k < 200000)
            g->possible.push_back(can);
        else if (k > 5000000)
            fail("the threads do not end");
        if (can && g->next_preempt < g->preempt.size() && g->preempt[g->next_preempt] == k)
        {
            ++g->next_preempt;
            hand_over();
        }
        else if (can && ++g->same_thread > 20000) // a spinning thread
            hand_over();
    }

    inline void race(uintptr_t a, Kind k, Kind other, const void* pc)
    {
        static const char* names[] = {"reads", "writes", "reads (atomically)", "writes (atomically)"};
        (void)pc;
        Dl_info i;
        std::string place = "heap memory";
        if (dladdr(reinterpret_cast<void*>(a), &i) && i.dli_fname)
        {
            place = i.dli_sname ? i.dli_sname : "a local static variable";
            if (i.dli_saddr)
            {
                char buf[32];
                snprintf(buf, sizeof buf, "+%zu", size_t(a - uintptr_t(i.dli_saddr)));
                place += buf;
            }
        }
        fail("data race: one thread " + std::string(names[k]) + " " + place + " (in " + where(pc) + ") while the other " + names[other] + " it");
    }

    inline void access(uintptr_t a, size_t n, Kind k, const void* pc)
    {
        if (a >= g->stack[me][0] && a < g->stack[me][1])
            return;
        if (g->mode > 1)
            point();
        ++g->accesses;
        int o = 1 - me;
        auto seen = g->clock[me].c[o];
        auto now = g->clock[me].c[me];
        while (n)
        {
            auto base = a & ~uintptr_t(7);
            auto& gr = g->shadow[base];
            size_t b = a - base, e = b + n < 8 ? b + n : 8;
            for (size_t i = b; i < e; ++i)
            {
                bool w = k == WRITE || k == AWRITE, at = k >= AREAD;
                if (gr.at[WRITE][o][i] > seen)
                    race(base + i, k, WRITE, pc);
                if (w && gr.at[READ][o][i] > seen)
                    race(base + i, k, READ, pc);
                if (!at && gr.at[AWRITE][o][i] > seen)
                    race(base + i, k, AWRITE, pc);
                if (!at && w && gr.at[AREAD][o][i] > seen)
                    race(base + i, k, AREAD, pc);
                gr.at[k][me][i] = now;
            }
            n -= e - b;
            a = base + 8;
        }
    }

    // Memory that has just been allocated has no earlier accesses.
    inline void forget(uintptr_t a, size_t n)
    {
        for (uintptr_t b = a & ~uintptr_t(7); b < a + n; b += 8)
            g->shadow.erase(b);
    }

    inline void acquire(uintptr_t o) { g->clock[me].join(g->objects[o]); }

    inline void release(uintptr_t o)
    {
        g->objects[o].join(g->clock[me]);
        ++g->clock[me].c[me];
    }

    inline void lock(uintptr_t m, bool recursive)
    {
        point();
        while (true)
        {
            auto& x = g->mutexes[m];
            if (x.owner == me && recursive)
                break;
            if (x.owner == -1 && x.readers[0] + x.readers[1] == 0)
                break;
            if (x.owner == me)
                fail("a thread locks a mutex it holds already");
            blocked("locking a mutex");
        }
        auto& x = g->mutexes[m];
        g->stuck = 0;
        x.owner = me;
        ++x.depth;
        acquire(m);
    }

    inline bool try_lock(uintptr_t m)
    {
        point();
        auto& x = g->mutexes[m];
        if (x.owner != -1 || x.readers[0] + x.readers[1])
            return false;
        x.owner = me;
        ++x.depth;
        acquire(m);
        return true;
    }

    inline void unlock(uintptr_t m)
    {
        auto& x = g->mutexes[m];
        if (x.readers[me])
            --x.readers[me];
        else if (x.depth && --x.depth == 0)
            x.owner = -1;
        release(m);
        point();
    }

    inline void lock_shared(uintptr_t m)
    {
        point();
        while (g->mutexes[m].owner != -1)
            blocked("locking a mutex");
        ++g->mutexes[m].readers[me];
        acquire(m);
    }

    inline void* thread_main(void* arg)
    {
        int i = int(intptr_t(arg));
        {
            Inside in;
            pthread_attr_t at;
            void* p = nullptr;
            size_t n = 0;
            pthread_getattr_np(pthread_self(), &at);
            pthread_attr_getstack(&at, &p, &n);
            pthread_attr_destroy(&at);
            g->stack[i][0] = uintptr_t(p);
            g->stack[i][1] = uintptr_t(p) + n;
            while (sem_wait(&g->baton[i]))
            {}
        }
        me = i;
        std::string r;
        try
        {
            r = g->body[i]();
        }
        catch (const std::exception& e)
        {
            ++inside;
            r = std::string("\1an exception: ") + e.what();
        }
        ++inside; // for ever
        g->result[i] = std::string(r.data(), r.size());
        g->finished[i] = true;
        if (g->finished[1 - i])
            report();
        g->turn = 1 - i;
        g->same_thread = 0;
        sem_post(&g->baton[1 - i]);
        while (true)
            pause();
    }

    struct Run
    {
        bool ended = false;       // the process ended as it should
        bool followed = true;     // the given preemptions all took place
        std::string problem, result[2], possible;
        uint64_t accesses = 0;
    };

    // Runs one schedule in a process of its own.
    inline Run run(const std::function<std::string()>& a, const std::function<std::string()>& b, int first, const std::vector<uint32_t>& preempt, int mode = 0)
    {
        int fd[2];
        if (pipe(fd))
            _exit(3);
        pid_t pid = fork();
        if (pid == 0)
        {
            close(fd[0]);
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            g = new State;
            g->fd = fd[1];
            g->body[0] = a;
            g->body[1] = b;
            g->preempt = preempt;
            g->mode = mode;
            g->turn = first;
            g->clock[0].c[0] = 1;
            g->clock[1].c[1] = 1;
            for (auto& s : g->baton)
                sem_init(&s, 0, 0);
            ++inside;
            for (int i = 0; i < 2; ++i)
            {
                if (pthread_create(&g->thread[i], nullptr, thread_main, reinterpret_cast<void*>(intptr_t(i))))
                    _exit(3);
            }
            sem_post(&g->baton[first]);
            while (true)
                pause();
        }
        close(fd[1]);
        std::string r;
        char buf[65536];
        Run o;
        bool late = false;
        while (true)
        {
            pollfd p{fd[0], POLLIN, 0};
            if (poll(&p, 1, 100000) == 0)
            {
                late = true;
                kill(pid, SIGKILL);
                break;
            }
            auto n = read(fd[0], buf, sizeof buf);
            if (n <= 0)
                break;
            r.append(buf, size_t(n));
        }
        close(fd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (late)
        {
            o.problem = "the threads do not end within 100 s";
            return o;
        }
        if (!WIFEXITED(st) || WEXITSTATUS(st))
        {
            o.problem = "the process of the two threads ended with status " + std::to_string(st);
            return o;
        }
        size_t at = 0;
        auto text = [&](std::string& s)
        {
            uint32_t n;
            if (at + 4 > r.size())
                return;
            memcpy(&n, r.data() + at, 4);
            at += 4;
            s = r.substr(at, n);
            at += n;
        };
        text(o.problem);
        text(o.result[0]);
        text(o.result[1]);
        if (at + 8 <= r.size())
            memcpy(&o.accesses, r.data() + at, 8);
        at += 8;
        text(o.possible);
        o.followed = at < r.size() && r[at] == '1';
        o.ended = true;
        return o;
    }
}

#define RT extern "C" __attribute__((visibility("default")))
#define PC __builtin_return_address(0)

namespace sched
{
    inline void plain(const volatile void* p, size_t n, Kind k, const void* pc)
    {
        if (!active())
            return;
        Inside in;
        access(uintptr_t(p), n, k, pc);
    }
}

RT void __tsan_init() {}
RT void __tsan_func_entry(void*)
{
    if (!sched::active() || sched::g->mode < 1)
        return;
    sched::Inside in;
    sched::point();
}
RT void __tsan_func_exit() {}
RT void __tsan_ignore_thread_begin() {}
RT void __tsan_ignore_thread_end() {}
#define ACCESS(N) \
    RT void __tsan_read##N(void* p) { sched::plain(p, N, sched::READ, PC); } \
    RT void __tsan_write##N(void* p) { sched::plain(p, N, sched::WRITE, PC); } \
    RT void __tsan_volatile_read##N(void* p) { sched::plain(p, N, sched::READ, PC); } \
    RT void __tsan_volatile_write##N(void* p) { sched::plain(p, N, sched::WRITE, PC); } \
    RT void __tsan_unaligned_read##N(void* p) { sched::plain(p, N, sched::READ, PC); } \
    RT void __tsan_unaligned_write##N(void* p) { sched::plain(p, N, sched::WRITE, PC); } \
    RT void __tsan_unaligned_volatile_read##N(void* p) { sched::plain(p, N, sched::READ, PC); } \
    RT void __tsan_unaligned_volatile_write##N(void* p) { sched::plain(p, N, sched::WRITE, PC); } \
    RT void __tsan_read_write##N(void* p) { sched::plain(p, N, sched::WRITE, PC); } \
    RT void __tsan_unaligned_read_write##N(void* p) { sched::plain(p, N, sched::WRITE, PC); }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
RT void __tsan_read_range(void* p, size_t n) { sched::plain(p, n, sched::READ, PC); }
RT void __tsan_write_range(void* p, size_t n) { sched::plain(p, n, sched::WRITE, PC); }
RT void __tsan_vptr_read(void** p) { sched::plain(p, 8, sched::READ, PC); }
RT void __tsan_vptr_update(void** p, void*) { sched::plain(p, 8, sched::WRITE, PC); }
RT void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    sched::plain(s, n, sched::READ, PC);
    sched::plain(d, n, sched::WRITE, PC);
    return memcpy(d, s, n);
}
RT void* __tsan_memmove(void* d, const void* s, size_t n)
{
    sched::plain(s, n, sched::READ, PC);
    sched::plain(d, n, sched::WRITE, PC);
    return memmove(d, s, n);
}
RT void* __tsan_memset(void* d, int c, size_t n)
{
    sched::plain(d, n, sched::WRITE, PC);
    return memset(d, c, n);
}
RT void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    sched::plain(s, n, sched::READ, PC);
    sched::plain(d, n, sched::WRITE, PC);
    return memcpy(d, s, n);
}
RT void* __wrap_memmove(void* d, const void* s, size_t n)
{
    sched::plain(s, n, sched::READ, PC);
    sched::plain(d, n, sched::WRITE, PC);
    return memmove(d, s, n);
}
RT void* __wrap_memset(void* d, int c, size_t n)
{
    sched::plain(d, n, sched::WRITE, PC);
    return memset(d, c, n);
}
RT int __wrap_memcmp(const void* a, const void* b, size_t n)
{
    sched::plain(a, n, sched::READ, PC);
    sched::plain(b, n, sched::READ, PC);
    return memcmp(a, b, n);
}
RT void* __wrap_memchr(const void* a, int c, size_t n)
{
    sched::plain(a, n, sched::READ, PC);
    return const_cast<void*>(memchr(a, c, n));
}
RT size_t __wrap_strlen(const char* s)
{
    auto n = strlen(s);
    sched::plain(s, n + 1, sched::READ, PC);
    return n;
}
// Functions of the C library with state of their own.
namespace sched { inline char hidden[4]; }
RT char* __wrap_strtok(char* s, const char* d)
{
    sched::plain(&sched::hidden[0], 1, sched::WRITE, PC);
    return strtok(s, d);
}
RT char* __wrap_setlocale(int c, const char* l)
{
    sched::plain(&sched::hidden[1], 1, l ? sched::WRITE : sched::READ, PC);
    return setlocale(c, l);
}
RT int __wrap_mbtowc(wchar_t* w, const char* s, size_t n)
{
    sched::plain(&sched::hidden[2], 1, sched::WRITE, PC);
    return mbtowc(w, s, n);
}
RT int __wrap_wctomb(char* s, wchar_t w)
{
    sched::plain(&sched::hidden[3], 1, sched::WRITE, PC);
    return wctomb(s, w);
}

namespace sched
{
    inline bool acquires(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
    inline bool releases(int mo) { return mo == 3 || mo == 4 || mo == 5; }

    template <typename T, typename F>
    auto atomic(const volatile T* p, Kind k, int mo, const void* pc, F f)
    {
        if (!active())
            return f();
        Inside in;
        point();
        auto a = uintptr_t(p);
        access(a, sizeof(T), k, pc);
        auto r = f();
        if (k == AREAD ? acquires(mo) : acquires(mo))
            acquire(a);
        if (k == AWRITE && releases(mo))
            release(a);
        return r;
    }
}
#define RMW(BITS, T, OP, EXPR) \
    RT T __tsan_atomic##BITS##_##OP(volatile T* p, T v, int mo) \
    { \
        return sched::atomic(p, sched::AWRITE, mo, PC, [&] { T old = *p; *p = T(EXPR); return old; }); \
    }
#define ATOMIC(BITS, T) \
    RT T __tsan_atomic##BITS##_load(const volatile T* p, int mo) \
    { \
        return sched::atomic(p, sched::AREAD, mo, PC, [&] { return T(*p); }); \
    } \
    RT void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo) \
    { \
        sched::atomic(p, sched::AWRITE, mo == 5 ? 3 : mo, PC, [&] { *p = v; return 0; }); \
    } \
    RMW(BITS, T, exchange, v) \
    RMW(BITS, T, fetch_add, old + v) \
    RMW(BITS, T, fetch_sub, old - v) \
    RMW(BITS, T, fetch_and, old & v) \
    RMW(BITS, T, fetch_or, old | v) \
    RMW(BITS, T, fetch_xor, old ^ v) \
    RMW(BITS, T, fetch_nand, ~(old & v)) \
    RT int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) \
    { \
        return sched::atomic(p, sched::AWRITE, mo, PC, [&] { T old = *p; if (old == *e) { *p = v; return 1; } *e = old; return 0; }); \
    } \
    RT int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) \
    { \
        return sched::atomic(p, sched::AWRITE, mo, PC, [&] { T old = *p; if (old == *e) { *p = v; return 1; } *e = old; return 0; }); \
    } \
    RT T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) \
    { \
        return sched::atomic(p, sched::AWRITE, mo, PC, [&] { T old = *p; if (old == e) *p = v; return old; }); \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
__extension__ typedef unsigned __int128 uint128_type;
ATOMIC(128, uint128_type)
RT void __tsan_atomic_thread_fence(int)
{
    if (!sched::active())
        return;
    sched::Inside in;
    sched::point();
    sched::acquire(1);
    sched::release(1);
}
RT void __tsan_atomic_signal_fence(int) {}

// Guards of function-local statics: the first byte is set when initialized.
RT int __cxa_guard_acquire(long long int* guard)
{
    auto* done = reinterpret_cast<volatile uint8_t*>(guard);
    if (!sched::active())
        return *done == 0;
    sched::Inside in;
    sched::point();
    auto a = uintptr_t(guard);
    while (sched::g->guards[a])
    {
        if (sched::g->guards[a] == sched::me + 1)
            sched::fail("a static variable is initialized recursively");
        sched::blocked("the initialization of a static variable");
    }
    sched::acquire(a);
    if (*done)
        return 0;
    sched::g->guards[a] = sched::me + 1;
    return 1;
}
RT void __cxa_guard_release(long long int* guard)
{
    auto* done = reinterpret_cast<volatile uint8_t*>(guard);
    *done = 1;
    if (!sched::active())
        return;
    sched::Inside in;
    auto a = uintptr_t(guard);
    sched::g->guards[a] = 0;
    sched::release(a);
    sched::point();
}
RT void __cxa_guard_abort(long long int* guard)
{
    if (!sched::active())
        return;
    sched::Inside in;
    sched::g->guards[uintptr_t(guard)] = 0;
    sched::release(uintptr_t(guard));
    sched::point();
}

template <typename F>
static F real(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

RT int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if (!sched::active(PC))
        return f(m);
    sched::Inside in;
    sched::lock(uintptr_t(m), (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP);
    return 0;
}
RT int pthread_mutex_trylock(pthread_mutex_t* m)
{
    static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    if (!sched::active(PC))
        return f(m);
    sched::Inside in;
    return sched::try_lock(uintptr_t(m)) ? 0 : EBUSY;
}
RT int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    if (!sched::active(PC))
        return f(m);
    sched::Inside in;
    sched::unlock(uintptr_t(m));
    return 0;
}
RT int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    static auto f = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
    if (!sched::active(PC))
        return f(m);
    sched::Inside in;
    sched::lock(uintptr_t(m), false);
    return 0;
}
RT int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    static auto f = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
    if (!sched::active(PC))
        return f(m);
    sched::Inside in;
    sched::lock_shared(uintptr_t(m));
    return 0;
}
RT int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    static auto f = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
    if (!sched::active(PC))
        return f(m);
    sched::Inside in;
    sched::unlock(uintptr_t(m));
    return 0;
}
RT int pthread_spin_lock(pthread_spinlock_t* m)
{
    static auto f = real<int(*)(pthread_spinlock_t*)>("pthread_spin_lock");
    if (!sched::active(PC))
        return f(m);
    sched::Inside in;
    sched::lock(uintptr_t(m), false);
    return 0;
}
RT int pthread_spin_unlock(pthread_spinlock_t* m)
{
    static auto f = real<int(*)(pthread_spinlock_t*)>("pthread_spin_unlock");
    if (!sched::active(PC))
        return f(m);
    sched::Inside in;
    sched::unlock(uintptr_t(m));
    return 0;
}
RT int pthread_once(pthread_once_t* o, void (*init)())
{
    static auto f = real<int(*)(pthread_once_t*, void (*)())>("pthread_once");
    if (!sched::active(PC))
        return f(o, init);
    auto a = uintptr_t(o);
    {
        sched::Inside in;
        sched::point();
        while (sched::g->guards[a] == 2 - sched::me)
            sched::blocked("call_once");
        sched::acquire(a);
        if (*o == 2 || sched::g->guards[a] == 3)
            return 0;
        sched::g->guards[a] = sched::me + 1;
    }
    try
    {
        init();
    }
    catch (...)
    {
        sched::Inside in;
        sched::g->guards[a] = 0;
        sched::release(a);
        throw;
    }
    sched::Inside in;
    sched::g->guards[a] = 3;
    *o = 2;
    sched::release(a);
    sched::point();
    return 0;
}
RT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static auto f = real<int(*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    if (!sched::active())
        return f(c, m);
    sched::Inside in;
    auto n = sched::g->signals[uintptr_t(c)];
    sched::unlock(uintptr_t(m));
    while (sched::g->signals[uintptr_t(c)] == n)
        sched::blocked("waiting for a condition variable");
    sched::lock(uintptr_t(m), false);
    return 0;
}
RT int pthread_cond_signal(pthread_cond_t* c)
{
    static auto f = real<int(*)(pthread_cond_t*)>("pthread_cond_signal");
    if (!sched::active())
        return f(c);
    sched::Inside in;
    ++sched::g->signals[uintptr_t(c)];
    sched::point();
    return 0;
}
RT int pthread_cond_broadcast(pthread_cond_t* c) { return pthread_cond_signal(c); }
RT int sched_yield()
{
    if (!sched::active())
        return 0;
    sched::Inside in;
    if (!sched::g->finished[1 - sched::me])
        sched::hand_over();
    return 0;
}

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
#include <malloc.h>
namespace sched
{
    inline void allocated(void* p, size_t n)
    {
        if (!p || !active())
            return;
        Inside in;
        forget(uintptr_t(p), n > malloc_usable_size(p) ? n : malloc_usable_size(p));
    }
    inline void freed(void* p, const void* pc)
    {
        if (!p || !active())
            return;
        Inside in;
        // Only the bytes that have been accessed: the usable size can be larger than the block.
        for (uintptr_t b = uintptr_t(p), e = b + malloc_usable_size(p); b < e; b += 8)
        {
            if (g->shadow.count(b))
                access(b, 8, WRITE, pc);
        }
    }
}
RT void* malloc(size_t n)
{
    auto* p = __libc_malloc(n);
    sched::allocated(p, n);
    return p;
}
RT void* calloc(size_t n, size_t m)
{
    auto* p = __libc_calloc(n, m);
    sched::allocated(p, n * m);
    return p;
}
RT void free(void* p)
{
    sched::freed(p, PC);
    __libc_free(p);
}
RT void* realloc(void* p, size_t n)
{
    sched::freed(p, PC);
    auto* q = __libc_realloc(p, n);
    sched::allocated(q, n);
    return q;
}
RT void* memalign(size_t a, size_t n)
{
    auto* p = __libc_memalign(a, n);
    sched::allocated(p, n);
    return p;
}
RT void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
RT int posix_memalign(void** p, size_t a, size_t n)
{
    *p = memalign(a, n);
    return *p ? 0 : ENOMEM;
}
