// Explicit-state / bounded exhaustive exploration kernel.
//
// A harness registers families. A family is a finite, completely enumerated
// space: item i of [0, count) is one trace (an input, a block of inputs or a
// call history) that is executed on the real library and compared with the
// reference model on every step. Items are distributed over forked workers by
// a fixed rule, so that every worker's history is reproducible.
//
// Counters, all measured while running:
//   states       model states visited (inputs, positions, histories)
//   transitions  library calls whose result was compared with the model
//   traces       items that ran to their end
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
#include "Ystring/YstringException.hpp"

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif

namespace mc
{
    struct Failure
    {
        std::string message;
    };

    inline std::string fmt(const char* f, ...)
    {
        char buf[4096];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        return buf;
    }

    inline std::string show(std::string_view s)
    {
        std::string r = "\"";
        size_t shown = 0;
        for (unsigned char ch : s)
        {
            if (++shown > 160)
            {
                r += fmt("...(%zu bytes)", s.size());
                break;
            }
            if (ch == '"' || ch == '\\')
                r += '\\', r += char(ch);
            else if (ch >= 32 && ch < 127)
                r += char(ch);
            else
                r += fmt("\\x%02X", ch);
        }
        return r + "\"";
    }

    inline std::string show(std::u32string_view s)
    {
        std::string r = "<";
        for (char32_t ch : s.substr(0, 60))
            r += fmt("%sU+%04X", r.size() > 1 ? " " : "", unsigned(ch));
        return r + (s.size() > 60 ? " ...>" : ">");
    }

    inline std::string show(const std::string& s) { return show(std::string_view(s)); }
    inline std::string show(const std::u32string& s) { return show(std::u32string_view(s)); }
    inline std::string show(bool b) { return b ? "true" : "false"; }
    inline std::string show(size_t n) { return n == SIZE_MAX ? "npos" : std::to_string(n); }
    inline std::string show(int n) { return std::to_string(n); }
    inline std::string show(long n) { return std::to_string(n); }
    inline std::string show(unsigned n) { return std::to_string(n); }
    inline std::string show(char32_t c) { return fmt("U+%04X", unsigned(c)); }

    template <typename T>
    std::string show(const std::vector<T>& v)
    {
        std::string r = "[";
        size_t n = 0;
        for (auto& e : v)
        {
            if (++n > 20)
            {
                r += fmt(", ...(%zu)", v.size());
                break;
            }
            r += (n > 1 ? ", " : "") + show(e);
        }
        return r + "]";
    }

    constexpr size_t OUTCOME_BITS = size_t(1) << 20;

    struct WorkerSlot
    {
        std::atomic<uint64_t> index;
        std::atomic<uint64_t> beat;
        std::atomic<uint64_t> states;
        std::atomic<uint64_t> transitions;
        std::atomic<uint64_t> traces;
        std::atomic<int> status; // 0 running, 1 done, 2 failed
        const char* note;        // what is being called (a literal)
        char message[6000];
    };

    struct Shared
    {
        std::atomic<int> inconclusive{0}; // set by harnesses that could not do their work
        std::atomic<uint64_t> stop_at;
        std::atomic<uint64_t> cut{0}; // explorations of this family that were cut short
        WorkerSlot slots[64];
        std::atomic<uint8_t> outcomes[OUTCOME_BITS / 8];
    };

    inline Shared* g_shared;

    inline uint64_t mix(uint64_t h)
    {
        h ^= h >> 33;
        h *= 0xff51afd7ed558ccdULL;
        h ^= h >> 33;
        h *= 0xc4ceb9fe1a85ec53ULL;
        return h ^ (h >> 33);
    }

    inline uint64_t hash(std::string_view s)
    {
        uint64_t h = 0xcbf29ce484222325ULL;
        for (unsigned char c : s)
            h = (h ^ c) * 0x100000001b3ULL;
        return mix(h);
    }

    inline uint64_t hash(std::u32string_view s)
    {
        uint64_t h = 0xcbf29ce484222325ULL;
        for (char32_t c : s)
            h = (h ^ c) * 0x100000001b3ULL;
        return mix(h);
    }

    struct Ctx
    {
        uint64_t states = 0;
        uint64_t transitions = 0;
        WorkerSlot* slot = nullptr;
        bool sampling = false;
        std::string sample_text;

        void state(uint64_t n = 1) { states += n; }

        void call(uint64_t n = 1)
        {
            transitions += n;
            if (slot)
                slot->beat.store(transitions, std::memory_order_relaxed);
        }

        void note(const char* literal)
        {
            if (slot)
                slot->note = literal;
        }

        void outcome(uint64_t h)
        {
            h = mix(h);
            size_t bit = h % OUTCOME_BITS;
            auto& b = g_shared->outcomes[bit / 8];
            uint8_t m = uint8_t(1u << (bit % 8));
            if (!(b.load(std::memory_order_relaxed) & m))
                b.fetch_or(m, std::memory_order_relaxed);
        }

        std::string where() const { return slot && slot->note ? std::string(" in ") + slot->note : std::string(); }

        template <typename F>
        void sample(F f)
        {
            if (sampling && sample_text.empty())
                sample_text = f();
        }

        [[noreturn]] void fail(std::string msg) { throw Failure{std::move(msg)}; }
    };

    template <typename A, typename B>
    inline void fail_eq(const A& a, const B& b, const std::string& what)
    {
        throw Failure{what + ": got " + show(a) + ", expected " + show(b)};
    }

// MC_EQ(ctx, actual, expected, format, ...): one compared library call.
#define MC_EQ(c, a, b, ...)                                             \
    do                                                                  \
    {                                                                   \
        (c).call();                                                     \
        auto&& mc_a_ = (a);                                             \
        auto&& mc_b_ = (b);                                             \
        if (!(mc_a_ == mc_b_))                                          \
            ::mc::fail_eq(mc_a_, mc_b_, ::mc::fmt(__VA_ARGS__));        \
    } while (0)

// MC_OK(ctx, condition, format, ...): one more observation on a call.
#define MC_OK(c, cond, ...)                                             \
    do                                                                  \
    {                                                                   \
        if (!(cond))                                                    \
            throw ::mc::Failure{::mc::fmt(__VA_ARGS__)};                \
    } while (0)

// True if the call throws YstringException.
    template <typename F>
    bool throws(F f)
    {
        try
        {
            f();
        }
        catch (const ystring::YstringException&)
        {
            return true;
        }
        return false;
    }

#define MC_THROWS(c, expr, ...)                                         \
    do                                                                  \
    {                                                                   \
        (c).call();                                                     \
        if (!::mc::throws([&] { (void)(expr); }))                       \
            throw ::mc::Failure{::mc::fmt(__VA_ARGS__)                  \
                                + ": no YstringException"};             \
    } while (0)

    using Run = std::function<void(Ctx&, uint64_t)>;

    struct Family
    {
        std::string name;
        std::string bounds;
        uint64_t count;
        Run run;
        uint64_t chunk = 16;
    };

    struct Harness
    {
        bool thorough = false;
        double stall = 25; // seconds without progress that count as a hang
        // Seconds after which no item is begun: the run then says that it is not complete.
        double time_limit = 1e9;
        std::vector<Family> families;

        void add(std::string name, std::string bounds, uint64_t count, Run run,
                 uint64_t chunk = 16)
        {
            families.push_back({std::move(name), std::move(bounds), count,
                                std::move(run), chunk});
        }
    };

    // All sequences over k symbols with min_len..max_len symbols, shortest first.
    struct Sequences
    {
        uint64_t k;
        unsigned min_len, max_len;

        uint64_t count() const
        {
            uint64_t total = 0, p = 1;
            for (unsigned l = 0; l <= max_len; ++l, p *= k)
            {
                if (l >= min_len)
                    total += p;
            }
            return total;
        }

        void get(uint64_t index, std::vector<unsigned>& out) const
        {
            uint64_t p = 1;
            unsigned l = 0;
            for (; l < min_len; ++l)
                p *= k;
            while (index >= p)
            {
                index -= p;
                p *= k;
                ++l;
            }
            out.resize(l);
            for (unsigned i = l; i-- > 0;)
            {
                out[i] = unsigned(index % k);
                index /= k;
            }
        }
    };

    struct StringSpace
    {
        std::vector<std::string> symbols;
        Sequences seq;

        StringSpace(std::vector<std::string> syms, unsigned min_len, unsigned max_len)
            : symbols(std::move(syms)), seq{symbols.size(), min_len, max_len}
        {}

        uint64_t count() const { return seq.count(); }

        std::string get(uint64_t index) const
        {
            std::vector<unsigned> v;
            seq.get(index, v);
            std::string s;
            for (auto i : v)
                s += symbols[i];
            return s;
        }
    };

    inline double now()
    {
        timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
    }

    inline double g_start; // of this program

    inline std::string json_str(std::string_view s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')
                r += '\\', r += char(c);
            else if (c >= 32 && c < 127)
                r += char(c);
            else
                r += fmt("\\u%04x", c);
        }
        return r + "\"";
    }

    inline void limits(unsigned cpu_seconds)
    {
        rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
#if !defined(MC_ASAN) && !defined(MC_NO_AS_LIMIT)
        rl.rlim_cur = rl.rlim_max = rlim_t(3) << 30;
        setrlimit(RLIMIT_AS, &rl);
#endif
        if (cpu_seconds)
        {
            rl.rlim_cur = cpu_seconds;
            rl.rlim_max = cpu_seconds + 5;
            setrlimit(RLIMIT_CPU, &rl);
        }
    }

    // Runs one item; returns the failure message or an empty string.
    inline std::string run_item(const Family& f, Ctx& c, uint64_t index)
    {
        try
        {
            f.run(c, index);
            return {};
        }
        catch (const Failure& e)
        {
            return e.message.empty() ? "failed" : e.message;
        }
        catch (const ystring::YstringException& e)
        {
            return std::string("unexpected YstringException: ") + e.what() + c.where();
        }
        catch (const std::exception& e)
        {
            return std::string("foreign exception: ") + e.what() + c.where();
        }
        catch (...)
        {
            return "foreign exception of unknown type" + c.where();
        }
    }

    // The worker's own order of items: chunk numbers w, w + n, w + 2n...
    template <typename F>
    void for_shard(const Family& f, unsigned w, unsigned n, F fn)
    {
        uint64_t chunk = f.chunk;
        for (uint64_t b = uint64_t(w) * chunk; b < f.count; b += uint64_t(n) * chunk)
        {
            uint64_t e = std::min(b + chunk, f.count);
            for (uint64_t i = b; i < e; ++i)
            {
                if (!fn(i))
                    return;
            }
        }
    }

    struct Outcome
    {
        bool failed = false;
        std::string kind; // mismatch, crash, hang, killed
        std::string message;
    };

    // Runs fn in a child process with a slot; used for workers and replays.
    template <typename F>
    pid_t spawn(F fn)
    {
        fflush(stdout);
        fflush(stderr);
        pid_t pid = fork();
        if (pid == 0)
        {
            fn();
            _exit(0);
        }
        return pid;
    }

    inline void put_message(WorkerSlot& s, const std::string& m)
    {
        size_t n = std::min(m.size(), sizeof s.message - 1);
        memcpy(s.message, m.data(), n);
        s.message[n] = 0;
    }

    inline std::string death(int st, const WorkerSlot& s)
    {
        auto in = s.note ? std::string(" in ") + s.note : std::string();
        if (WIFSIGNALED(st))
            return fmt("process ended by signal %d (%s)", WTERMSIG(st),
                       strsignal(WTERMSIG(st))) + in;
        return fmt("process exited with status %d%s", WEXITSTATUS(st),
#if defined(MC_ASAN) || defined(MC_MEMCHECK)
                   " (memory checker's report)"
#else
                   ""
#endif
        ) + in;
    }

    // Replays index (and, if prefix, everything before it in worker w's shard).
    inline Outcome replay(const Family& f, uint64_t index, bool prefix,
                          unsigned w, unsigned n, double stall_limit)
    {
        auto& slot = g_shared->slots[63];
        slot.status = 0;
        slot.message[0] = 0;
        slot.beat = 0;
        slot.index = UINT64_MAX;
        slot.note = nullptr;
        pid_t pid = spawn([&]
        {
            limits(0);
            Ctx c;
            c.slot = &slot;
            std::string msg;
            if (!prefix)
            {
                slot.index = index;
                msg = run_item(f, c, index);
            }
            else
            {
                for_shard(f, w, n, [&](uint64_t i)
                {
                    slot.index = i;
                    msg = run_item(f, c, i);
                    return msg.empty() && i != index;
                });
            }
            if (!msg.empty())
                put_message(slot, msg);
            slot.status = msg.empty() ? 1 : 2;
        });
        uint64_t last_i = 0, last_b = 0;
        double last = now();
        Outcome r;
        while (true)
        {
            int st;
            if (waitpid(pid, &st, WNOHANG) == pid)
            {
                if (slot.status == 2)
                    r = {true, "mismatch", slot.message};
                else if (slot.status != 1)
                {
                    bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
                    r = {true, killed ? "killed" : "crash", death(st, slot)};
                }
                return r;
            }
            uint64_t i = slot.index, b = slot.beat;
            if (i != last_i || b != last_b)
                last = now(), last_i = i, last_b = b;
            if (now() - last > stall_limit)
            {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                return {true, "hang", fmt("no progress in %.0f s: the call does not terminate",
                                          stall_limit)
                                      + (slot.note ? std::string(" in ") + slot.note : "")};
            }
            usleep(2000);
        }
    }

    struct Violation
    {
        std::string family, kind, message;
        uint64_t index = 0;
        bool prefix = false;
        unsigned worker = 0, workers = 0;
        bool found = false;
    };

    inline void write_result(const char* path, const Harness& h, double t0,
                             const std::vector<std::array<uint64_t, 3>>& counts,
                             const std::vector<uint64_t>& cuts,
                             const std::vector<std::pair<std::string, std::string>>& samples,
                             const std::vector<double>& times,
                             const Violation& v)
    {
        FILE* out = fopen(path, "w");
        if (!out)
        {
            perror(path);
            _exit(3);
        }
        uint64_t distinct = 0;
        for (auto& b : g_shared->outcomes)
            distinct += uint64_t(__builtin_popcount(b.load()));
        fprintf(out, "{\n\"families\": [");
        uint64_t tot[3] = {0, 0, 0};
        for (size_t i = 0; i < counts.size(); ++i)
        {
            for (int k = 0; k < 3; ++k)
                tot[k] += counts[i][k];
            fprintf(out,
                    "%s\n  {\"name\": %s, \"bounds\": %s, \"items\": %llu, \"states\": %llu, "
                    "\"transitions\": %llu, \"traces\": %llu, \"wall_s\": %.2f%s}",
                    i ? "," : "", json_str(h.families[i].name).c_str(),
                    json_str(h.families[i].bounds).c_str(),
                    (unsigned long long)h.families[i].count,
                    (unsigned long long)counts[i][0],
                    (unsigned long long)counts[i][1],
                    (unsigned long long)counts[i][2], times[i],
                    cuts[i] ? fmt(", \"cut_short\": %llu", (unsigned long long)cuts[i]).c_str() : "");
        }
        fprintf(out, "],\n\"states\": %llu, \"transitions\": %llu, \"traces\": %llu,\n",
                (unsigned long long)tot[0], (unsigned long long)tot[1],
                (unsigned long long)tot[2]);
        fprintf(out, "\"distinct_outcomes\": %llu, \"wall_s\": %.2f,\n\"samples\": [",
                (unsigned long long)distinct, now() - t0);
        for (size_t i = 0; i < samples.size(); ++i)
            fprintf(out, "%s\n  {\"family\": %s, \"case\": %s}", i ? "," : "",
                    json_str(samples[i].first).c_str(),
                    json_str(samples[i].second).c_str());
        fprintf(out, "],\n\"violation\": ");
        if (!v.found)
            fprintf(out, "null\n}\n");
        else
            fprintf(out,
                    "{\"family\": %s, \"index\": %llu, \"kind\": %s, \"message\": %s, "
                    "\"prefix\": %s, \"worker\": %u, \"workers\": %u}\n}\n",
                    json_str(v.family).c_str(), (unsigned long long)v.index,
                    json_str(v.kind).c_str(), json_str(v.message).c_str(),
                    v.prefix ? "true" : "false", v.worker, v.workers);
        fclose(out);
    }

    inline int main_loop(Harness& h, int argc, char** argv)
    {
        const char* out = "result.json";
        std::string rfam;
        uint64_t rindex = 0;
        bool rprefix = false, do_replay = false;
        unsigned rw = 0, rn = 8;
        std::string only;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            if (a == "--out" && i + 1 < argc)
                out = argv[++i];
            else if (a == "--only" && i + 1 < argc)
                only = argv[++i];
            else if (a == "--replay" && i + 5 < argc)
            {
                do_replay = true;
                rfam = argv[++i];
                rindex = strtoull(argv[++i], nullptr, 10);
                rprefix = atoi(argv[++i]) != 0;
                rw = unsigned(atoi(argv[++i]));
                rn = unsigned(atoi(argv[++i]));
            }
        }
        g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                             MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        if (g_shared == MAP_FAILED)
        {
            perror("mmap");
            return 3;
        }
        if (do_replay)
        {
            for (auto& f : h.families)
            {
                if (f.name != rfam)
                    continue;
                auto r = replay(f, rindex, rprefix, rw, rn, h.stall * 2 + 10);
                printf("%s item %llu: %s%s\n", f.name.c_str(), (unsigned long long)rindex,
                       r.failed ? (r.kind + ": ").c_str() : "holds", r.message.c_str());
                return r.failed ? 1 : 0;
            }
            fprintf(stderr, "no family %s\n", rfam.c_str());
            return 3;
        }
        double t0 = now();
        const unsigned N = 8;
        std::vector<std::array<uint64_t, 3>> counts;
        std::vector<uint64_t> cuts;
        std::vector<std::pair<std::string, std::string>> samples;
        std::vector<double> times;
        Violation v;
        bool any = false;
        for (size_t fi = 0, attempt = 0; fi < h.families.size(); ++fi)
        {
            auto& f = h.families[fi];
            if (!only.empty() && f.name.find(only) == std::string::npos)
                f.count = 0;
            double tf = now();
            any = any || f.count;
            g_shared->stop_at = UINT64_MAX;
            g_shared->cut = 0;
            pid_t pids[N];
            bool alive[N];
            uint64_t last_i[N], last_b[N];
            double last[N];
            std::string kinds[N];
            for (unsigned w = 0; w < N; ++w)
            {
                auto& slot = g_shared->slots[w];
                slot.index = UINT64_MAX;
                slot.beat = slot.states = slot.transitions = slot.traces = 0;
                slot.status = 0;
                slot.note = nullptr;
                slot.message[0] = 0;
                alive[w] = false;
                if (uint64_t(w) * f.chunk >= f.count)
                {
                    slot.status = 1;
                    continue;
                }
                pids[w] = spawn([&, w]
                {
                    limits(0);
                    auto& s = g_shared->slots[w];
                    Ctx c;
                    c.slot = &s;
                    bool ok = true;
                    uint64_t traces = 0;
                    for_shard(f, w, N, [&](uint64_t i)
                    {
                        if (i > g_shared->stop_at.load(std::memory_order_relaxed))
                            return false;
                        if (now() - g_start > h.time_limit)
                        {
                            ++g_shared->cut;
                            return false;
                        }
                        s.index.store(i, std::memory_order_relaxed);
                        auto msg = run_item(f, c, i);
                        if (!msg.empty())
                        {
                            put_message(s, msg);
                            uint64_t cur = g_shared->stop_at;
                            while (i < cur && !g_shared->stop_at.compare_exchange_weak(cur, i))
                            {}
                            ok = false;
                            return false;
                        }
                        ++traces;
                        return true;
                    });
                    s.states = c.states;
                    s.transitions = c.transitions;
                    s.traces = traces;
                    s.status = ok ? 1 : 2;
                });
                alive[w] = true;
                last_i[w] = last_b[w] = 0;
                last[w] = now();
            }
            unsigned live = 0;
            for (unsigned w = 0; w < N; ++w)
                live += alive[w];
            unsigned nap = 500;
            while (live)
            {
                usleep(nap);
                if (nap < 10000)
                    nap *= 2;
                for (unsigned w = 0; w < N; ++w)
                {
                    if (!alive[w])
                        continue;
                    auto& s = g_shared->slots[w];
                    int st;
                    if (waitpid(pids[w], &st, WNOHANG) == pids[w])
                    {
                        alive[w] = false;
                        --live;
                        if (s.status == 2)
                            kinds[w] = "mismatch";
                        else if (s.status != 1)
                        {
                            kinds[w] = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? "killed" : "crash";
                            put_message(s, death(st, s));
                        }
                    }
                    else
                    {
                        uint64_t i = s.index, b = s.beat;
                        if (i != last_i[w] || b != last_b[w])
                            last[w] = now(), last_i[w] = i, last_b[w] = b;
                        else if (now() - last[w] > h.stall)
                        {
                            kill(pids[w], SIGKILL);
                            waitpid(pids[w], &st, 0);
                            alive[w] = false;
                            --live;
                            kinds[w] = "hang";
                            put_message(s, fmt("no progress in %.0f s", h.stall));
                        }
                    }
                    if (!kinds[w].empty())
                    {
                        uint64_t i = s.index, cur = g_shared->stop_at;
                        while (i < cur && !g_shared->stop_at.compare_exchange_weak(cur, i))
                        {}
                    }
                }
            }
            std::array<uint64_t, 3> cnt{0, 0, 0};
            std::vector<std::pair<uint64_t, unsigned>> bad;
            for (unsigned w = 0; w < N; ++w)
            {
                auto& s = g_shared->slots[w];
                cnt[0] += s.states;
                cnt[1] += s.transitions;
                cnt[2] += s.traces;
                if (!kinds[w].empty())
                    bad.push_back({s.index, w});
            }
            std::sort(bad.begin(), bad.end());
            bool inconclusive = false;
            for (auto& [i, w] : bad)
            {
                Violation x;
                x.family = f.name;
                x.index = i;
                x.worker = w;
                x.workers = N;
                x.kind = kinds[w];
                x.message = g_shared->slots[w].message;
                auto r = replay(f, i, false, w, N, h.stall * 2 + 10);
                if (r.failed)
                {
                    x.kind = r.kind;
                    x.message = r.message;
                    x.found = true;
                }
                else
                {
                    r = replay(f, i, true, w, N, h.stall * 2 + 10);
                    x.prefix = true;
                    if (r.failed)
                    {
                        x.kind = r.kind;
                        x.message = r.message + " (only after the preceding calls of this worker)";
                        x.found = true;
                    }
                    else if (x.kind == "mismatch" || x.kind == "crash")
                    {
                        x.message += " (seen once, not reproduced)";
                        x.found = true;
                    }
                    else
                    {
                        // A stall or kill that does not repeat says nothing
                        // about the library; the exploration is incomplete.
                        fprintf(stderr, "inconclusive: %s item %llu: %s\n", f.name.c_str(),
                                (unsigned long long)i, x.message.c_str());
                        inconclusive = true;
                    }
                }
                if (x.found)
                {
                    v = x;
                    break;
                }
            }
            if (inconclusive && !v.found)
            {
                if (++attempt > 2)
                    return 3;
                --fi; // explore this family again from its start
                continue;
            }
            attempt = 0;
            counts.push_back(cnt);
            cuts.push_back(g_shared->cut);
            times.push_back(now() - tf);
            if (v.found)
                break;
            // Samples: re-run up to three items of each family with recording on.
            if (f.count && !g_shared->cut)
            {
                uint64_t picks[3] = {f.count / 3, f.count * 2 / 3, f.count - 1};
                for (int k = 0; k < 3; ++k)
                {
                    if (k && picks[k] == picks[k - 1])
                        continue;
                    int fd[2];
                    if (pipe(fd))
                        continue;
                    pid_t pid = spawn([&]
                    {
                        Ctx c;
                        c.sampling = true;
                        run_item(f, c, picks[k]);
                        auto t = c.sample_text.substr(0, 700);
                        (void)!write(fd[1], t.data(), t.size());
                    });
                    close(fd[1]);
                    std::string t;
                    char buf[1024];
                    ssize_t n;
                    while ((n = read(fd[0], buf, sizeof buf)) > 0)
                        t.append(buf, size_t(n));
                    close(fd[0]);
                    waitpid(pid, nullptr, 0);
                    if (!t.empty())
                        samples.push_back({f.name, t});
                }
            }
        }
        if (!any)
        {
            fprintf(stderr, "no families\n");
            return 3;
        }
        if (g_shared->inconclusive && !v.found)
        {
            fprintf(stderr, "the exploration is incomplete\n");
            return 3;
        }
        write_result(out, h, t0, counts, cuts, samples, times, v);
        return v.found ? 1 : 0;
    }

    void build(Harness& h); // defined by each harness
}

#ifndef MC_NO_MAIN
int main(int argc, char** argv)
{
    mc::Harness h;
    mc::g_start = mc::now();
    const char* t = getenv("VERIF_TIER");
    h.thorough = t && std::string(t) == "thorough";
    if (!h.thorough)
        h.time_limit = 700;
    mc::build(h);
    return mc::main_loop(h, argc, argv);
}
#endif
