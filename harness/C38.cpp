// C38: a call computes its result and does nothing else. During every call the
// kernel hands each system call to the handler below instead of making it
// (syscall user dispatch), the functions of the C library that read or change the
// process's environment, clock or random numbers are the ones below, and the
// arguments lie in memory that cannot be written.
#include <cerrno>
#include <cfenv>
#include <chrono>
#include <clocale>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <stdio_ext.h>
#include <dlfcn.h>
#include <exception>
#include <iostream>
#include <locale>
#include <malloc.h>
#include <new>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

static volatile char g_selector; // SYSCALL_DISPATCH_FILTER_ALLOW, _BLOCK = 1
static volatile bool g_inside;
static volatile int g_syscall = -1;
static const char* volatile g_called;
static volatile uint64_t g_memory;

static inline void enter()
{
    g_inside = true;
    g_selector = 1;
}

static inline void leave()
{
    g_selector = 0;
    g_inside = false;
}

// Around every call: what is in a stream's buffer is written while system calls
// are still watched.
static void flush_streams();
static void judge();
#define YS_AFTER_CALL() do { flush_streams(); judge(); } while (0)
#include "all_calls.hpp"

static Ctx* g_ctx;

static void flush_streams()
{
    if (!g_inside)
        return;
    fflush(nullptr);
}

static void on_syscall(int, siginfo_t* info, void* u)
{
    g_selector = 0;
    auto* regs = static_cast<ucontext_t*>(u)->uc_mcontext.gregs;
    long n = info->si_syscall;
    bool memory = n == SYS_brk || n == SYS_munmap || n == SYS_mremap || n == SYS_madvise || n == SYS_futex
                  || (n == SYS_mmap && int(regs[REG_R8]) == -1);
    if (memory)
    {
        // What malloc and locks may do.
        int e = errno;
        long r = syscall(n, regs[REG_RDI], regs[REG_RSI], regs[REG_RDX], regs[REG_R10], regs[REG_R8], regs[REG_R9]);
        regs[REG_RAX] = r == -1 ? -errno : r;
        errno = e;
        g_memory = g_memory + 1;
    }
    else
    {
        if (g_syscall < 0)
            g_syscall = int(n);
        regs[REG_RAX] = -ENOSYS;
    }
    g_selector = 1;
    // ys_restorer's system call is not watched.
}

extern "C" const char ys_restorer[], ys_restorer_end[];
asm(".text\nys_restorer: mov $15, %eax\n syscall\nys_restorer_end: nop\n");

static const char* syscall_name(int n)
{
    switch (n)
    {
    case SYS_read: return "read";
    case SYS_write: return "write";
    case SYS_writev: return "writev";
    case SYS_open: return "open";
    case SYS_openat: return "openat";
    case SYS_close: return "close";
    case SYS_fstat: return "fstat";
    case SYS_newfstatat: return "newfstatat";
    case SYS_rt_sigaction: return "rt_sigaction";
    case SYS_rt_sigprocmask: return "rt_sigprocmask";
    case SYS_ioctl: return "ioctl";
    case SYS_clone: return "clone";
    case SYS_clone3: return "clone3";
    case SYS_getrandom: return "getrandom";
    case SYS_nanosleep: return "nanosleep";
    case SYS_clock_nanosleep: return "clock_nanosleep";
    case SYS_sched_yield: return "sched_yield";
    case SYS_getpid: return "getpid";
    case SYS_mmap: return "mmap";
    }
    return "another";
}

// The functions whose use is an effect, or makes the result depend on more than
// the arguments. They do their usual work.
template <typename F>
static F* next_one(const char* name)
{
    return reinterpret_cast<F*>(dlsym(RTLD_NEXT, name));
}

static void noticed(const char* name)
{
    if (g_inside && !g_called)
        g_called = name;
}

#define WATCHED(ret, name, params, args)                     \
    extern "C" ret name params noexcept                      \
    {                                                        \
        noticed(#name);                                      \
        static auto* f = next_one<ret params>(#name);        \
        return f args;                                       \
    }

WATCHED(char*, getenv, (const char* a), (a))
WATCHED(char*, secure_getenv, (const char* a), (a))
WATCHED(int, setenv, (const char* a, const char* b, int c), (a, b, c))
WATCHED(int, unsetenv, (const char* a), (a))
WATCHED(int, putenv, (char* a), (a))
WATCHED(time_t, time, (time_t* a), (a))
WATCHED(clock_t, clock, (), ())
WATCHED(int, clock_gettime, (clockid_t a, timespec* b), (a, b))
WATCHED(int, rand, (), ())
WATCHED(void, srand, (unsigned a), (a))
WATCHED(long, random, (), ())
WATCHED(void, srandom, (unsigned a), (a))
WATCHED(long, lrand48, (), ())
WATCHED(double, drand48, (), ())
WATCHED(char*, strtok, (char* a, const char* b), (a, b))
extern "C" int gettimeofday(timeval* a, void* b) noexcept
{
    noticed("gettimeofday");
    static auto* f = next_one<int(timeval*, void*)>("gettimeofday");
    return f(a, b);
}

// Settings of the process that are changed without a system call.
struct Settings
{
    int rounding = fegetround();
    unsigned mxcsr = __builtin_ia32_stmxcsr() & ~0x3Fu;
    std::terminate_handler terminate = std::get_terminate();
    std::new_handler new_handler = std::get_new_handler();
    char** env = environ;
    string variables = []
    {
        string s;
        for (char** e = environ; *e; ++e)
            s.append(*e).push_back('\0');
        return s;
    }();
    int exceptions = std::uncaught_exceptions();
    bool current = bool(std::current_exception());
    std::ios_base::fmtflags flags[3] = {std::cout.flags(), std::cerr.flags(), std::clog.flags()};
    std::ios_base::iostate states[3] = {std::cout.rdstate(), std::cerr.rdstate(), std::clog.rdstate()};
    std::streambuf* buffers[3] = {std::cout.rdbuf(), std::cerr.rdbuf(), std::clog.rdbuf()};
    void* stdio[3] = {stdin, stdout, stderr};

    bool operator==(const Settings& o) const
    {
        bool eq = true;
        for (int k = 0; k < 3; ++k)
            eq = eq && flags[k] == o.flags[k] && states[k] == o.states[k] && buffers[k] == o.buffers[k] && stdio[k] == o.stdio[k];
        return eq && rounding == o.rounding && mxcsr == o.mxcsr && terminate == o.terminate && new_handler == o.new_handler
               && env == o.env && variables == o.variables && exceptions == o.exceptions && current == o.current;
    }
};

static void judge()
{
    bool inside = g_inside;
    leave();
    if (g_syscall >= 0)
    {
        int n = g_syscall;
        g_syscall = -1;
        throw Failure{fmt("a call%s makes the system call %d (%s)", g_ctx->where().c_str(), n, syscall_name(n))};
    }
    if (auto* f = g_called)
    {
        g_called = nullptr;
        throw Failure{fmt("a call%s uses %s", g_ctx->where().c_str(), f)};
    }
    if (inside)
        enter();
}

// Memory that can only be read while calls are made, with the text at its end.
class ReadOnly
{
public:
    string_view put(string_view s)
    {
        size_t need = (s.size() + 4095) / 4096 * 4096 + 4096;
        if (need > m_size)
        {
            if (m_base)
                munmap(m_base, m_size);
            m_size = need;
            m_base = static_cast<char*>(mmap(nullptr, m_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
            if (m_base == MAP_FAILED)
                throw Failure{"mmap"};
        }
        else
            mprotect(m_base, m_size, PROT_READ | PROT_WRITE);
        char* at = m_base + m_size - s.size();
        if (!s.empty())
            memcpy(at, s.data(), s.size());
        mprotect(m_base, m_size, PROT_READ);
        return {at, s.size()};
    }
private:
    char* m_base = nullptr;
    size_t m_size = 0;
};

static ReadOnly g_first, g_second;

static bool prepare_worker()
{
    static bool done;
    static bool ok;
    if (done)
        return ok;
    done = true;
    // malloc keeps what it has.
    mallopt(M_TRIM_THRESHOLD, 1 << 30);
    mallopt(M_MMAP_THRESHOLD, 32 << 20);
    vector<void*> blocks;
    for (int i = 0; i < 16; ++i)
        blocks.push_back(malloc(16 << 20));
    for (auto p : blocks)
        free(p);
    struct
    {
        void (*handler)(int, siginfo_t*, void*);
        unsigned long flags;
        const void* restorer;
        unsigned long mask;
    } sa = {on_syscall, SA_SIGINFO | SA_NODEFER | 0x04000000 /* SA_RESTORER */, ys_restorer, 0};
    g_selector = 0;
    ok = syscall(SYS_rt_sigaction, SIGSYS, &sa, nullptr, 8) == 0
         && prctl(59 /* PR_SET_SYSCALL_USER_DISPATCH */, 1, ys_restorer, ys_restorer_end - ys_restorer + 1, &g_selector) == 0;
    if (!ok)
    {
        fprintf(stderr, "system calls cannot be watched\n");
        g_shared->inconclusive = true;
    }
    // The first exception loads tables.
    try
    {
        throw ystring::YstringException("x");
    }
    catch (std::exception&)
    {
    }
    return ok;
}

template <typename F>
static void watched(Ctx& c, F f)
{
    if (!prepare_worker())
        return;
    struct Closed
    {
        ~Closed() { leave(); }
    } closed;
    g_ctx = &c;
    g_syscall = -1;
    g_called = nullptr;
    Settings before;
    enter();
    f();
    flush_streams();
    judge();
    leave();
    MC_OK(c, Settings() == before, "settings of the process have changed");
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    h.add("watch", "what is looked for is seen: system calls, streams, environment, clock, random numbers, settings", 12, [](Ctx& c, uint64_t i)
    {
        static const char* const names[] = {"write", "buffered stdout", "cout", "cerr", "getenv", "time", "system_clock", "rand", "rounding", "exception state", "terminate handler", "flags of cout"};
        c.sample([&] { return string(names[i]); });
        c.call();
        c.state();
        auto rounding = fegetround();
        auto flags = std::cout.flags();
        auto terminate = std::get_terminate();
        bool seen = false;
        std::exception_ptr keep;
        try
        {
            watched(c, [&]
            {
                switch (i)
                {
                case 0: if (write(1, "x", 1)) {} break;
                case 1: printf("x"); break;
                case 2: std::cout << 'x'; break;
                case 3: std::cerr << 'x'; break;
                case 4: g_sink = g_sink + (getenv("HOME") != nullptr); break;
                case 5: g_sink = g_sink + uint64_t(time(nullptr)); break;
                case 6: g_sink = g_sink + uint64_t(std::chrono::system_clock::now().time_since_epoch().count()); break;
                case 7: g_sink = g_sink + uint64_t(rand()); break;
                case 8: fesetround(FE_UPWARD); break;
                case 9: if (write(1, "", 0)) {} break;
                case 10: std::set_terminate([] { abort(); }); break;
                case 11: std::cout << std::hex; break;
                }
            });
        }
        catch (const Failure&)
        {
            seen = true;
        }
        // What was printed and not written must not appear.
        __fpurge(stdout);
        std::cout.clear();
        std::cerr.clear();
        clearerr(stdout);
        clearerr(stderr);
        fesetround(rounding);
        std::cout.flags(flags);
        std::set_terminate(terminate);
        if (!seen)
        {
            fprintf(stderr, "%s is not seen\n", names[i]);
            g_shared->inconclusive = true;
        }
    });
    auto all = [](Ctx& c, const string& str)
    {
        auto s = g_first.put(str);
        watched(c, [&] { one_string({c, s}); });
    };
    {
        StringSpace sp(byte_classes(), 0, T ? 5 : 3);
        h.add("bytes", fmt("all strings of up to %d of 16 byte classes: every function of one string", T ? 5 : 3), sp.count(), [=](Ctx& c, uint64_t i)
        {
            c.sample([&] { return "every function on " + show(sp.get(i)); });
            all(c, sp.get(i));
        }, 16);
    }
    {
        StringSpace sp(small_byte_classes(), 4, T ? 7 : 5);
        h.add("longer", fmt("all strings of 4 to %d of 7 byte classes: every function of one string", T ? 7 : 5), sp.count(), [=](Ctx& c, uint64_t i) { all(c, sp.get(i)); }, 32);
    }
    {
        auto al = us(U"aAs\u0301\u0308\u0323\u00C4\u1E69\u1F82\u00DF\u0131\u212A\u3042\u3099\U00011099\U000110BA\r\n\u2028\" "s);
        al.push_back("\xCC");
        StringSpace sp(al, 1, T ? 4 : 3);
        h.add("texts", fmt("all strings of up to %d of %zu code points and bytes that combine, change length with case, or end lines: every function of one string", T ? 4 : 3, al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            c.sample([&] { return "every function on " + show(sp.get(i)); });
            all(c, sp.get(i));
        }, 16);
    }
    {
        auto al = concat(bytes({'a', 0x80, 0xE2}), us(U"\u00E9\u0301\U0001F600\r\n"));
        StringSpace sp(al, 0, T ? 4 : 3);
        h.add("indexes", fmt("all strings of up to %d of 3 byte classes and 5 code points: every function of an index, with 15 indexes and all pairs of them", T ? 4 : 3), sp.count(), [=](Ctx& c, uint64_t i)
        {
            c.sample([&] { return "every function of an index on " + show(sp.get(i)); });
            auto s = g_first.put(sp.get(i));
            watched(c, [&] { indexed(c, s); });
        }, 4);
    }
    {
        auto al = concat(bytes({0xE2, 0x80}), us(U"aA\u00DFs\u00E9"));
        StringSpace sp(al, 0, T ? 3 : 2);
        h.add("pairs", fmt("all ordered pairs of strings of up to %d of %zu symbols: every function of two strings", T ? 3 : 2, al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            c.sample([&] { return "every function of " + show(sp.get(i)) + " and each string"; });
            auto s = g_first.put(sp.get(i));
            for (uint64_t k = 0; k < sp.count(); ++k)
            {
                auto t = g_second.put(sp.get(k));
                watched(c, [&] { two_strings(c, s, t); });
            }
        }, 1);
    }
    {
        vector<string> tok = {"\\x", "\\u", "\\U", "\\", "0", "41", "D83D", "\\uDE00", "123456789", "\\101", "\\7", "\\n", "\xE2", "\x80", "\n"};
        StringSpace sp(tok, 1, T ? 4 : 3);
        h.add("escapes", fmt("all strings of up to %d of %zu pieces of escape sequences: every function of one string", T ? 4 : 3, tok.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            c.sample([&] { return "every function on " + show(sp.get(i)); });
            all(c, sp.get(i));
        }, 16);
    }
    h.add("codepoints", "every function of a code point with every value up to 110FFF", 0x111000 / 256, [](Ctx& c, uint64_t blk)
    {
        c.sample([&] { return fmt("every function of U+%04X - U+%04X", unsigned(blk * 256), unsigned(blk * 256 + 255)); });
        watched(c, [&]
        {
            for (uint64_t k = 0; k < 256; ++k)
            {
                codepoint(c, char32_t(blk * 256 + k));
                judge();
            }
        });
    });
    h.add("one-string-each", "the functions that treat code points differently, on every code point up to 10FFFF alone and on 16 in a row", 0x110000 / 64, [=](Ctx& c, uint64_t blk)
    {
        c.sample([&] { return fmt("strings of U+%04X - U+%04X", unsigned(blk * 64), unsigned(blk * 64 + 63)); });
        string text;
        c.state(64);
        for (uint64_t k = 0; k < 64; ++k)
        {
            text += u(char32_t(blk * 64 + k));
            for (bool one : {true, false})
            {
            if (!one && k % 16 != 15)
                continue;
            auto s = g_first.put(one ? u(char32_t(blk * 64 + k)) : text);
            if (!one)
                text.clear();
            watched(c, [&]
            {
                In in{c, s};
                CALL(in, ystring::to_upper(s));
                CALL(in, ystring::to_lower(s));
                CALL(in, ystring::to_title(s));
                CALL(in, to_composed(s));
                CALL(in, to_decomposed(s));
                CALL(in, to_utf32(s));
                CALL(in, count_chars(s));
                CALL(in, ystring::reverse(s));
                CALL(in, trim(s));
                CALL(in, escape_json(s));
                CALL(in, is_valid_utf8(s));
                CALL(in, split_lines(s));
                CALL(in, ci::compare(s, s));
                CALL(in, ci::find_last(s, s));
            });
            }
        }
    });
    {
        auto vs = std::make_shared<u32string>(U"\0azAZ\u00E9\u0131\U0010FFFF"s + char32_t(0xD800) + char32_t(0x110000));
        h.add("sets", fmt("sets with a range between any two of %zu values, in both orders", vs->size()), vs->size() * vs->size(), [=](Ctx& c, uint64_t i)
        {
            watched(c, [&] { sets(c, (*vs)[i / vs->size()], (*vs)[i % vs->size()]); });
        }, 1);
    }
    {
        auto ks = pump_counts(T);
        vector<size_t> some;
        for (auto k : ks)
        {
            if (k < 34 || (k > 60 && k < 70) || (k > 124 && k < 132) || k > 250)
                some.push_back(k);
        }
        vector<string> vs = {"a", u(0xE9), u(0x20AC), u(0x1F600), "\x80", "e" + u(0x301), u(0x1F82), "\\n", "\\uD83D\\uDE00", "\"", "\r\n", u(0xDF), "\\"};
        size_t ns = 0;
        while (ns < some.size() && some[ns] <= (T ? 65537u : 4097u))
            ++ns;
        h.add("pumped", fmt("v^k w for %zu counts k up to %zu, %zu v, 2 w: every function of one string, and up to 257 of two", ns, some[ns - 1], vs.size()), ns * vs.size() * 2, [=](Ctx& c, uint64_t i)
        {
            auto& v = vs[i % vs.size()];
            string w = i / vs.size() % 2 ? "\xE2\x82" : "";
            size_t k = some[i / vs.size() / 2];
            c.sample([&] { return "every function on " + show(v) + fmt(" * %zu", k); });
            all(c, repeat(v, k) + w);
            if (k > 257)
                return;
            auto s = g_first.put(repeat(v, k) + w);
            auto t = g_second.put(repeat(v, k / 2) + w);
            watched(c, [&] { two_strings(c, s, t); });
            t = g_second.put(v);
            watched(c, [&] { two_strings(c, s, t); });
        }, 1);
    }
    {
        vector<string> vs = {"a", "A", u(0xE9), u(0x1F600), "e" + u(0x301), "\\n", "a\r\n", "\"", u(0xDF), "\x80"};
        vector<size_t> sizes = T ? vector<size_t>{1u << 16, 1u << 17, 1u << 18, 1u << 19, 1u << 20, 1u << 21, 1u << 22, 1u << 23} : vector<size_t>{1u << 16, 1u << 18, 1u << 20, 1u << 22};
        h.add("large", fmt("texts of 2^16 to %zu bytes and one more, of %zu v: every function of one string", sizes.back(), vs.size()), vs.size() * sizes.size(), [=](Ctx& c, uint64_t i)
        {
            auto& v = vs[i % vs.size()];
            auto n = sizes[i / vs.size()];
            c.sample([&] { return "every function on " + show(v) + fmt(" * %zu", n / v.size()); });
            if (c.sampling)
                return;
            all(c, repeat(v, n / v.size() + 1));
        }, 1);
    }
    add_blocks(h, us(U"aA\u00E9"), few_block_symbols(true), {"\\", "\"", "\r", u(0x301)}, [=](Ctx& c, const string& text, const string&, const string&)
    {
        auto s = g_first.put(text);
        watched(c, [&] { one_string({c, s}); });
    });
}
