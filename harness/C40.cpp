// C40: a call gives the same result whenever and wherever it is made: before and
// after main, at a thread's end, in another thread or process, in a signal
// handler, while an exception is on its way or handled, with any errno and any
// floating point setting, at any depth of the stack.
#include <cerrno>
#include <cfenv>
#include <csignal>
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <xmmintrin.h>
#include "compared.hpp"

extern char** environ;

namespace
{
    // Runs f where exceptions must not get out, and throws them later.
    struct Guarded
    {
        const std::function<void()>& f;
        std::exception_ptr error;

        void operator()() noexcept
        {
            try
            {
                f();
            }
            catch (...)
            {
                error = std::current_exception();
            }
        }

        void check() const
        {
            if (error)
                std::rethrow_exception(error);
        }
    };

    struct AtEnd
    {
        Guarded* g;
        ~AtEnd()
        {
            if (g)
                (*g)();
        }
    };

    void unwinding(Guarded& g)
    {
        try
        {
            AtEnd e{&g};
            throw 1;
        }
        catch (int)
        {
        }
    }

    void in_handler(Guarded& g)
    {
        try
        {
            throw YstringException("handled already");
        }
        catch (const YstringException&)
        {
            g();
        }
    }

    void in_handler_while_unwinding(Guarded& g)
    {
        struct Both
        {
            Guarded& g;
            ~Both() { in_handler(g); }
        };
        try
        {
            Both b{g};
            throw YstringException("on its way");
        }
        catch (const YstringException&)
        {
        }
    }

    thread_local AtEnd t_end{nullptr};

    void with_pthread(size_t stack, Guarded& g, bool at_end, bool use_first = false)
    {
        struct Arg
        {
            Guarded& g;
            bool at_end;
            bool use_first;
        } arg{g, at_end, use_first};
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, stack);
        pthread_t t;
        if (pthread_create(&t, &a, [](void* p) -> void*
            {
                auto& x = *static_cast<Arg*>(p);
                if (x.at_end)
                    t_end.g = &x.g;
                if (x.use_first)
                {
                    x.g();
                    if (x.g.error)
                        t_end.g = nullptr;
                    g_pos = 0; // the same again at the end
                }
                if (!x.at_end)
                    x.g();
                return nullptr;
            }, &arg))
        {
            fprintf(stderr, "no thread\n");
            g_shared->inconclusive = true;
            return;
        }
        pthread_join(t, nullptr);
        pthread_attr_destroy(&a);
    }

    Guarded* g_in_signal;

    void in_signal(Guarded& g)
    {
        struct sigaction sa = {}, old;
        sa.sa_handler = [](int)
        {
            (*g_in_signal)();
        };
        sigaction(SIGUSR2, &sa, &old);
        g_in_signal = &g;
        raise(SIGUSR2);
        sigaction(SIGUSR2, &old, nullptr);
    }

    void in_child(Guarded& g)
    {
        int p[2];
        if (pipe(p))
            return;
        auto pid = fork();
        if (pid == 0)
        {
            close(p[0]);
            string text;
            g();
            try
            {
                g.check();
            }
            catch (const Failure& e)
            {
                text = e.message;
            }
            catch (...)
            {
                text = "foreign exception in a forked process";
            }
            (void)!write(p[1], text.data(), std::min<size_t>(text.size(), 3000));
            _exit(text.empty() ? 0 : 1);
        }
        close(p[1]);
        string text;
        char buf[4096];
        for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;)
            text.append(buf, size_t(n));
        close(p[0]);
        int status = 0;
        waitpid(pid, &status, 0);
        if (!text.empty())
            throw Failure{text};
        if (status)
            throw Failure{fmt("a call ends the forked process (status %d)", status)};
        g_pos = g_base.size(); // all compared in the child
    }

    __attribute__((noinline)) void deep(Guarded& g)
    {
        // Other bytes below than those the previous calls have left.
        volatile char room[3 << 20];
        for (size_t k = 0; k < sizeof room; k += 64)
            room[k] = char(k >> 6);
        room[0] = 1;
        g();
        room[sizeof room - 1] = room[0];
    }

    struct State
    {
        const char* name;
        std::function<void(Guarded&)> make;
    };

    const vector<State>& states()
    {
        static const auto& v = *new vector<State>{
            {"in main", [](Guarded& g) { g(); }},
            {"while an exception is on its way", unwinding},
            {"in the handler of an exception", in_handler},
            {"in a handler while another exception is on its way", in_handler_while_unwinding},
            {"in another thread", [](Guarded& g) { with_pthread(1 << 20, g, false); }},
            {"in a thread with a small stack", [](Guarded& g) { with_pthread(128 << 10, g, false); }},
            {"in the destructor of a thread-local object", [](Guarded& g) { with_pthread(1 << 20, g, true); }},
            {"in the destructor of a thread-local object, again", [](Guarded& g) { with_pthread(1 << 20, g, true, true); }},
            {"in a signal handler", in_signal},
            {"in a forked process", in_child},
            {"deep in the stack", deep},
            {"with errno set to ERANGE", [](Guarded& g) { errno = ERANGE; g(); errno = 0; }},
            {"with errno set to EINVAL", [](Guarded& g) { errno = EINVAL; g(); errno = 0; }},
            {"when rounding upward", [](Guarded& g) { fesetround(FE_UPWARD); g(); fesetround(FE_TONEAREST); }},
            {"when rounding downward", [](Guarded& g) { fesetround(FE_DOWNWARD); g(); fesetround(FE_TONEAREST); }},
            {"when rounding toward zero, without denormals", [](Guarded& g)
            {
                auto csr = _mm_getcsr();
                fesetround(FE_TOWARDZERO);
                _mm_setcsr(_mm_getcsr() | 0x8040);
                g();
                fesetround(FE_TONEAREST);
                _mm_setcsr(csr);
            }},
            {"with all signals blocked", [](Guarded& g)
            {
                sigset_t all, old;
                sigfillset(&all);
                for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM})
                    sigdelset(&all, s);
                pthread_sigmask(SIG_SETMASK, &all, &old);
                g();
                pthread_sigmask(SIG_SETMASK, &old, nullptr);
            }},
        };
        return v;
    }

    template <typename F>
    void in_every_state(Ctx& c, bool processes, F f)
    {
        std::function<void()> fun = f;
        for (size_t k = 0; k < states().size(); ++k)
        {
            auto& st = states()[k];
            if (!processes && st.make.target<void (*)(Guarded&)>() && *st.make.target<void (*)(Guarded&)>() == in_child)
                continue;
            begin_setting(k == 0, string(st.name) + " than in main");
            Guarded g{fun, nullptr};
            st.make(g);
            g.check();
            end_setting(c);
        }
    }

    // The beginning and the end of the program. A block of items is explored in
    // main, and in a process of its own in the other phase; the results go
    // through a memory file.
    constexpr size_t BLOCKS = 48;

    void block(Ctx& c, size_t b)
    {
        size_t n = 0;
        auto mine = [&] { return n++ % BLOCKS == b; };
        auto strings = [&](const vector<string>& al, size_t len, auto f)
        {
            StringSpace sp(al, 0, len);
            for (uint64_t i = 0; i < sp.count(); ++i)
            {
                if (mine())
                    f(sp.get(i));
            }
        };
        auto al = us(U"aS\u00E9\u0301\u00DF\u20AC\U0001F600\r\n\u2028 \\\"\0"s);
        strings(small_byte_classes(), 3, [&](const string& s) { one_string({c, s}); });
        strings(al, 2, [&](const string& s) { one_string({c, s}); });
        strings({"a", "A", u(0xE9), u(0x17F), "\x80"}, 3, [&](const string& s)
        {
            for (auto t : {"", "a", "s", "aa", "\xC3\x89", "\x80", "Aa"})
            {
                two_strings(c, s, t);
                two_strings(c, t, s);
            }
        });
        strings(concat(us(U"a\u0301\u20AC"), bytes({0x80})), 2, [&](const string& s) { indexed(c, s); });
        strings({"\\x", "\\u", "\\", "41", "D83D", "\\uDE00", "\\101", "\\n", "\xE2"}, 3, [&](const string& s)
        {
            In in{c, s};
            CALL(in, unescape(s));
            CALL(in, has_escaped_chars(s));
            CALL(in, escape_json(s));
        });
        for (auto cp : {0x41, 0x7A, 0xE9, 0xDF, 0x131, 0x1C5, 0x3C3, 0x4E00, 0xAC01, 0x1E69, 0x1F82, 0x110BA, 0x10FFFF, 0x110000, -1})
        {
            if (mine())
                codepoint(c, char32_t(cp));
        }
        for (auto x : {0x41, 0x17F, 0x10FFFF})
        {
            for (auto y : {0x41, 0x5A, 0xFFFF})
            {
                if (mine())
                    sets(c, char32_t(x), char32_t(y));
            }
        }
        for (auto v : {"a", "\xC3\xA9", "\\n", "\r\n", "e\xCC\x81", " ", "\x80"})
        {
            for (size_t k : {16, 64, 300})
            {
                if (mine())
                    one_string({c, repeat(v, k)});
            }
        }
    }

    struct Phase
    {
        char name;
        size_t block;
        int fd;
    };

    // What this process is to do, if it is one of those.
    bool phase(Phase& p)
    {
        auto e = getenv("YS_PHASE");
        return e && sscanf(e, "%c %zu %d", &p.name, &p.block, &p.fd) == 3;
    }

    void room_for_outcomes()
    {
        if (!g_shared)
            g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    }

    void run_phase(const Phase& p)
    {
        alarm(120);
        room_for_outcomes();
        Ctx c;
        g_record = true;
        try
        {
            block(c, p.block);
        }
        catch (...)
        {
            _exit(77);
        }
        size_t left = g_base.size() * sizeof g_base[0];
        auto at = reinterpret_cast<const char*>(g_base.data());
        while (left)
        {
            auto n = write(p.fd, at, left);
            if (n <= 0)
                _exit(78);
            at += n;
            left -= size_t(n);
        }
        _exit(0);
    }

    // The first thing the program does.
    __attribute__((constructor(101))) void before_main()
    {
        Phase p;
        if (phase(p) && p.name == 'b')
        {
            new (&g_base) vector<uint64_t>();
            run_phase(p);
        }
    }

    bool g_ending;

    // The last thing the program does.
    __attribute__((destructor(101))) void after_main()
    {
        Phase p;
        if (g_ending && phase(p))
        {
            new (&g_base) vector<uint64_t>();
            run_phase(p);
        }
    }

    void compare_phase(Ctx& c, char name, const char* what, size_t b)
    {
        begin_setting(true, what);
        block(c, b);
        end_setting(c);
        int fd = memfd_create("results", 0);
        if (fd < 0)
        {
            fprintf(stderr, "no memory file\n");
            g_shared->inconclusive = true;
            return;
        }
        auto var = fmt("YS_PHASE=%c %zu %d", name, b, fd);
        vector<char*> env;
        for (char** e = environ; *e; ++e)
            env.push_back(*e);
        env.push_back(var.data());
        env.push_back(nullptr);
        char self[] = "/proc/self/exe";
        char* argv[] = {self, nullptr};
        auto pid = fork();
        if (pid == 0)
        {
            execve(self, argv, env.data());
            _exit(79);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        vector<uint64_t> got(g_base.size() + 1);
        auto n = pread(fd, got.data(), got.size() * sizeof got[0], 0);
        close(fd);
        if (WIFEXITED(status) && WEXITSTATUS(status) >= 78)
        {
            fprintf(stderr, "the process for %s did not work: %d\n", what, status);
            g_shared->inconclusive = true;
            return;
        }
        if (status)
            throw Failure{fmt("calls made %s: the process ends with status %d", what, status)};
        got.resize(size_t(std::max<ssize_t>(n, 0)) / sizeof got[0]);
        // The calls again, each with the result of the other process.
        begin_setting(false, what);
        g_base.swap(got);
        block(c, b);
        end_setting(c);
    }
}

void mc::build(Harness& h)
{
    Phase p;
    if (phase(p))
    {
        if (p.name == 'u')
        {
            // Everything is used before it is destroyed.
            room_for_outcomes();
            Ctx c;
            g_record = true;
            block(c, p.block);
        }
        g_ending = true;
        exit(0);
    }
    bool T = h.thorough;
    h.add("before-main", fmt("%zu blocks of 1736 texts, pairs, indexes, code points and sets: every function, in the initialization of a static object that is the program's first", BLOCKS), BLOCKS, [](Ctx& c, uint64_t i)
    {
        c.sample([] { return string("every function before main"); });
        compare_phase(c, 'b', "before main than in main", i);
    }, 1);
    h.add("after-main", "the same when all static objects have been destroyed, in a process that makes its first call then", BLOCKS, [](Ctx& c, uint64_t i) { compare_phase(c, 'a', "after main than in main", i); }, 1);
    h.add("after-use", "the same in a process that has made the calls before", BLOCKS, [](Ctx& c, uint64_t i) { compare_phase(c, 'u', "after main than in main", i); }, 1);
    auto n = states().size();
    {
        StringSpace sp(byte_classes(), 0, 3);
        h.add("bytes", fmt("all strings of up to 3 of 16 byte classes: every function of one string in %zu states of the program", n), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "every function on " + show(s); });
            in_every_state(c, true, [&] { one_string({c, s}); });
        }, 4);
    }
    {
        StringSpace sp(small_byte_classes(), 4, T ? 5 : 4);
        h.add("longer", fmt("all strings of 4%s of 7 byte classes: every function of one string", T ? " and 5" : ""), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            in_every_state(c, false, [&] { one_string({c, s}); });
        }, 4);
    }
    {
        auto al = us(U"aAs\u0301\u0308\u00C4\u00DF\u1E69\u3042\u3099\r\n\u2028 \\\"\0"s);
        al.push_back("\xCC");
        StringSpace sp(al, 1, 3);
        h.add("texts", fmt("all strings of up to 3 of %zu code points and bytes: every function of one string", al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            in_every_state(c, true, [&] { one_string({c, s}); });
        }, 4);
    }
    {
        auto al = concat(bytes({0xE2, 0x80, 'a', 'A', ','}), us(U"\u00E9\u00C9\u0131"));
        StringSpace sp(al, 0, T ? 3 : 2);
        h.add("pairs", fmt("all ordered pairs of strings of up to %d of %zu symbols: every function of two strings", T ? 3 : 2, al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            in_every_state(c, true, [&]
            {
                for (uint64_t k = 0; k < sp.count(); ++k)
                    two_strings(c, s, sp.get(k));
            });
        }, 1);
    }
    {
        auto al = concat(bytes({'a', 0x80, 0xE2}), us(U"\u00E9\u0301\U0001F600\r\n"));
        StringSpace sp(al, 0, T ? 3 : 2);
        h.add("indexes", fmt("all strings of up to %d of 3 byte classes and 5 code points: every function of an index", T ? 3 : 2), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            in_every_state(c, true, [&] { indexed(c, s); });
        }, 1);
    }
    h.add("codepoints", T ? "every function of a code point with every value up to 110FFF" : "every function of a code point with every 17th value up to 110FFF", 0x111000 / 4096, [T](Ctx& c, uint64_t blk)
    {
        in_every_state(c, true, [&]
        {
            for (uint64_t k = 0; k < 4096; k += T ? 1 : 17)
                codepoint(c, char32_t(blk * 4096 + k));
        });
    });
    {
        auto vs = std::make_shared<u32string>(U"\0azAZ\u007F\u0131\u017F\uFFFF\U0010FFFF"s);
        vs->push_back(char32_t(0x110000));
        vs->push_back(char32_t(0xFFFFFFFF));
        h.add("sets", fmt("sets with a range between any two of %zu values, in both orders", vs->size()), vs->size() * vs->size(), [=](Ctx& c, uint64_t i)
        {
            in_every_state(c, true, [&] { sets(c, (*vs)[i / vs->size()], (*vs)[i % vs->size()]); });
        }, 2);
    }
    {
        vector<string> tok = {"\\x", "\\u", "\\U", "\\", "0", "41", "D83D", "\\uDE00", "\\101", "\\7", "\\n", "FFFFFFFFF", "\xE2", "\n"};
        StringSpace sp(tok, 1, T ? 4 : 3);
        h.add("escapes", fmt("all strings of up to %d of %zu pieces of escape sequences: the escape functions", T ? 4 : 3, tok.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            in_every_state(c, false, [&]
            {
                In in{c, s};
                CALL(in, unescape(s));
                CALL(in, has_escaped_chars(s));
                CALL(in, find_first_escaped_char(s, 0));
                CALL(in, escape_json(s));
                CALL(in, ([&]
                {
                    string_view v = s;
                    auto r = unescape_next(v);
                    return ::mix(v.size(), r.value_or(0x1FFFFF));
                }()));
            });
        }, 16);
    }
    {
        vector<size_t> ks = {7, 8, 16, 17, 33, 65, 129, 257, 1025, 4097};
        vector<string> vs = {"a", "I ", u(0xE9), u(0x20AC), u(0x1F600), "\x80", "e" + u(0x301), u(0x1E69), "\\n", "\"", "\r\n", u(0xDF), ","};
        h.add("pumped", fmt("v^k for %zu counts k, %zu v: every function", ks.size(), vs.size()), ks.size() * vs.size(), [=](Ctx& c, uint64_t i)
        {
            auto& v = vs[i % vs.size()];
            auto s = repeat(v, ks[i / vs.size()]);
            in_every_state(c, true, [&]
            {
                one_string({c, s});
                if (s.size() < 3000)
                {
                    two_strings(c, s, v);
                    two_strings(c, v, s);
                }
            });
        }, 1);
    }
}
