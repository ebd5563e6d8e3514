// C27: concurrent calls do not interfere. Two threads under a controlled
// scheduler; every schedule up to a preemption bound.
#include "common.hpp"
#include "so/probes.h"
#include "so/sched.hpp"

using namespace mc;

extern "C"
{
    size_t self_count();
    const char* self_name(size_t i);
    bool self_wrong(size_t i);
    void self_run(size_t i, int thread, std::string* out);
}

using Body = std::function<string()>;

struct Explored
{
    uint64_t schedules = 0, points = 0, accesses = 0;
    unsigned bound = 0;    // all schedules with this many preemptions were run
    bool complete = true;
    bool cut = false; // before all schedules with one preemption were explored
    string problem;        // with the schedule that shows it
};

static string describe(int first, const vector<uint32_t>& p)
{
    string s = fmt("thread %d first, ", first);
    if (p.empty())
        return s + "no preemption";
    s += "preempted at points";
    for (auto x : p)
        s += fmt(" %u", x);
    return s;
}

// Explores the schedules of two threads, iteratively deepening the number of preemptions.
// The time until which schedules with preemptions are explored.
static double g_until = 1e18;
static bool g_thorough;

// Every schedule with one preemption, up to this many; evenly spaced ones beyond.
static size_t g_singles = SIZE_MAX;

template <typename Beat>
static Explored explore(const Body& a, const Body& b, const string& want_a, const string& want_b, unsigned bound, uint64_t budget, Beat beat, int mode = 0)
{
    Explored e;
    struct Node
    {
        int first;
        vector<uint32_t> p;
    };
    vector<Node> level{{0, {}}, {1, {}}}, next;
    for (unsigned k = 0; k <= bound && !level.empty(); ++k)
    {
        next.clear();
        if (k == 1 && mode == 0 && level.size() > g_singles)
        {
            vector<Node> few;
            for (size_t q = 0; q < g_singles; ++q)
                few.push_back(level[q * level.size() / g_singles]);
            level.swap(few);
            e.cut = true;
        }
        for (auto& n : level)
        {
            if (k > 0 && mc::now() > g_until)
            {
                e.cut = e.cut || k == 1;
                e.complete = false;
                return e;
            }
            if (e.schedules >= budget && k > 1)
            {
                e.complete = false;
                return e;
            }
            auto r = sched::run(a, b, n.first, n.p, mode);
            for (int again = 0; again < 3 && r.ended && r.problem.empty() && !r.followed; ++again)
                r = sched::run(a, b, n.first, n.p, mode);
            beat();
            ++e.schedules;
            if (r.ended && r.problem.empty() && !r.followed)
            {
                fprintf(stderr, "a schedule could not be followed: %s\n", describe(n.first, n.p).c_str());
                e.complete = false;
                if (mc::g_shared)
                    mc::g_shared->inconclusive = 1;
            }
            e.points += r.possible.size();
            e.accesses += r.accesses;
            if (!r.problem.empty())
                e.problem = r.problem;
            else if (r.result[0] != want_a)
                e.problem = "the first thread gets " + show(r.result[0]) + ", but " + show(want_a) + " without the second";
            else if (r.result[1] != want_b)
                e.problem = "the second thread gets " + show(r.result[1]) + ", but " + show(want_b) + " without the first";
            if (!e.problem.empty())
            {
                e.problem += " [" + describe(n.first, n.p) + "]";
                return e;
            }
            if (k < bound)
            {
                for (uint32_t q = n.p.empty() ? 0 : n.p.back() + 1; q < r.possible.size(); ++q)
                {
                    if (r.possible[q] == '1')
                    {
                        next.push_back({n.first, n.p});
                        next.back().p.push_back(q);
                    }
                }
            }
        }
        e.bound = k;
        level.swap(next);
    }
    if (level.empty())
        e.bound = bound;
    return e;
}

// Runs f alone, in a process of its own.
static string alone(const Body& f)
{
    auto r = sched::run(f, [] { return string(); }, 0, {});
    return r.problem.empty() ? r.result[0] : "\1" + r.problem;
}

static vector<string> g_base;

static string name(size_t i) { return ys_probe_name(i); }

static string probe(size_t i)
{
    string s;
    ys_probe_run(i, &s);
    return s;
}

// Until when, and how far, this family explores in a quick run: a library that
// synchronizes much has more schedules than there is time for.
static void within(const Ctx&, double seconds, size_t singles)
{
    bool T = g_thorough;
    g_until = T ? 1e18 : mc::g_start + seconds;
    g_singles = T ? SIZE_MAX : singles;
}

static void pair(Ctx& c, const string& what, const Body& a, const Body& b, const string& want_a, const string& want_b, unsigned bound, uint64_t budget, int mode = 0)
{
    auto e = explore(a, b, want_a, want_b, bound, budget, [&] { c.call(); }, mode);
    if (e.cut)
        ++mc::g_shared->cut;
    c.state(e.schedules + e.points);
    if (!e.problem.empty())
        c.fail(what + ": " + e.problem);
    c.outcome(hash(want_a) ^ hash(want_b) * 31);
    c.outcome(e.bound + 1000 * e.complete);
}

static void self_test()
{
    for (size_t i = 0; i < self_count(); ++i)
    {
        auto body = [i](int t) { return [i, t] { string s; self_run(i, t, &s); return s; }; };
        auto e = explore(body(0), body(1), alone(body(0)), alone(body(1)), 2, 600, [] {});
        bool ok = self_wrong(i) ? !e.problem.empty() : e.problem.empty();
        fprintf(stderr, "self-test %s: %llu schedules, %s\n", self_name(i), (unsigned long long)e.schedules, e.problem.empty() ? "quiet" : e.problem.c_str());
        if (!ok)
        {
            fprintf(stderr, "the scheduler's self-test failed\n");
            _exit(3);
        }
    }
}

void mc::build(Harness& h)
{
    bool T = g_thorough = h.thorough;
    sched::find_code();
    self_test();
    const unsigned bound = T ? 3 : 2;
    const uint64_t budget = T ? 20000 : 300;
    size_t n = ys_probe_count(), m = ys_text_count();
    for (size_t i = 0; i < n; ++i)
        g_base.push_back(alone([i] { return probe(i); }));
    h.add("alone", fmt("%zu calls on a thread of their own", n), n, [](Ctx& c, uint64_t i)
    {
        c.sample([&] { return name(i) + " = " + show(g_base[i]); });
        MC_OK(c, g_base[i].empty() || g_base[i][0] != '\1', "%s: %s", ys_probe_name(i), g_base[i].c_str() + 1);
        c.call();
    });
    h.add("pairs", fmt("all %zu unordered pairs of calls (each also with itself) on two threads; all schedules with up to %u preemptions at synchronization operations (up to 1 beyond %llu schedules), both threads first", n * (n + 1) / 2, bound, (unsigned long long)budget),
          n, [=](Ctx& c, uint64_t i)
    {
        c.sample([&] { return name(i) + " with each of the calls from itself on"; });
        within(c, 130, 200);
        for (size_t j = i; j < n; ++j)
            pair(c, name(i) + " || " + name(j), [i] { return probe(i); }, [j] { return probe(j); }, g_base[i], g_base[j], bound, budget);
    });
    {
        size_t near = T ? n : 3;
        h.add("function-entries", fmt("pairs (i, j) of calls, j from i to i + %zu; one preemption at each entry of a function of the library%s", near - 1, T ? ", and for j = i at each access to memory other than the stack" : ""),
              n, [=](Ctx& c, uint64_t i)
        {
            c.sample([&] { return name(i) + " with the calls from itself on"; });
            within(c, 200, 200);
            for (size_t j = i; j < n && j < i + near; ++j)
                pair(c, name(i) + " || " + name(j), [i] { return probe(i); }, [j] { return probe(j); }, g_base[i], g_base[j], 1, 0, T && j == i ? 2 : 1);
        });
    }
    h.add("sequences", fmt("two threads that make all %zu calls each, the second in a rotated and a reversed order, from %zu offsets; up to 1 preemption", n, n), n * 2, [=](Ctx& c, uint64_t k)
    {
        size_t off = k / 2;
        bool rev = k % 2;
        within(c, 260, 100);
        c.sample([&] { return fmt("all calls || all calls %s from %zu on", rev ? "backwards" : "", off); });
        auto at = [=](size_t q) { return rev ? (off + n - q) % n : (off + q) % n; };
        auto check = [](size_t i) -> string
        {
            auto s = probe(i);
            return s == g_base[i] ? "" : name(i) + " gives " + show(s) + " instead of " + show(g_base[i]);
        };
        auto body = [=](auto order)
        {
            return [=]() -> string
            {
                for (size_t q = 0; q < n; ++q)
                {
                    auto s = check(order(q));
                    if (!s.empty())
                        return s;
                }
                return "";
            };
        };
        pair(c, fmt("all calls || all calls from %zu", off), body([](size_t q) { return q; }), body(at), "", "", 1, T ? 2000 : 50);
    });
    {
        // The same argument in both threads.
        static const vector<string> texts = {"Alpha, \xC3\xA9t\xC3\xA9 \xE2\x82\xAC" "5 \xF0\x9F\x98\x80!", "a\xCC\x81" "b\xCC\x88\xCC\x84" "A\r\n\r\n\xE2\x80\xA8x", "x\\n\\u20AC\\uD83D\\uDE00\\x41\\101\\\\\"q\"",
                                             "", "ab\xC3\xC3\xA9\xE2\x82" "c\x80", "ABCabc \xC4\x8C\xC4\x8D\xCE\xA3\xCF\x83\xCF\x82\xC3\x9F\xC7\x84"};
        auto base = std::make_shared<vector<vector<string>>>(m, vector<string>(texts.size()));
        auto text = [](size_t f, const char* p, size_t k)
        {
            string s;
            ys_text_run(f, p, k, &s);
            return s;
        };
        for (size_t f = 0; f < m; ++f)
        {
            for (size_t t = 0; t < texts.size(); ++t)
                (*base)[f][t] = alone([=] { return text(f, texts[t].data(), texts[t].size()); });
        }
        h.add("shared-argument", fmt("all pairs of %zu functions on the same heap buffer, %zu contents; up to %u preemptions", m, texts.size(), bound), m * texts.size(), [=](Ctx& c, uint64_t k)
        {
            size_t f = k % m, t = k / m;
            c.sample([&] { return string(ys_text_name(f)) + " with each function on " + show(texts[t]); });
            within(c, 380, 100);
            vector<char> buf(texts[t].begin(), texts[t].end());
            buf.push_back('#');
            for (size_t g = f; g < m; ++g)
                pair(c, string(ys_text_name(f)) + " || " + ys_text_name(g) + " on " + show(texts[t]), [&] { return text(f, buf.data(), buf.size() - 1); }, [&] { return text(g, buf.data(), buf.size() - 1); },
                     (*base)[f][t], (*base)[g][t], bound, budget);
        });
    }
    {
        // Separate arguments of every size class and with every representative code point.
        auto texts = std::make_shared<vector<std::pair<string, string>>>();
        auto& r = reps();
        for (size_t k = 0; k < r.size(); ++k)
            texts->push_back({"a" + u(r[k]) + "b " + u(r[k]), "b" + u(r[(k + 1) % r.size()]) + "a \n"});
        vector<size_t> sizes = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 4097};
        if (T)
            sizes.insert(sizes.end(), {10000, 16385, 32769, 65537});
        for (size_t k : sizes)
        {
            texts->push_back({string(k, 'b'), string(k, 'a')});
            texts->push_back({repeat("\xC3\xA9", k), repeat("aA\n\xCC\x81 ", k / 6 + 1) + "\xE2"});
        }
        h.add("contents", fmt("%zu functions, each with itself and the next one on %zu pairs of contents (every representative code point, sizes up to %zu); up to 1 preemption", m, texts->size(), sizes.back() * 2), m, [=](Ctx& c, uint64_t f)
        {
            c.sample([&] { return string(ys_text_name(f)) + " with itself on all contents"; });
            within(c, 500, 50);
            auto body = [](size_t g, const string& s)
            {
                return [g, &s]
                {
                    string o;
                    ys_text_run(g, s.data(), s.size(), &o);
                    return o;
                };
            };
            for (auto& [a, b] : *texts)
            {
                auto x = alone(body(f, a)), y = alone(body(f, b));
                c.call(2);
                for (auto& z : {x, y})
                    MC_OK(c, z.empty() || z[0] != '\1', "%s: %s", ys_text_name(f), z.c_str() + 1);
                auto on = " on " + show(a) + " and " + show(b);
                pair(c, string(ys_text_name(f)) + " || itself" + on, body(f, a), body(f, b), x, y, 1, 50);
                size_t g = (f + 1) % m;
                pair(c, string(ys_text_name(f)) + " || " + ys_text_name(g) + on, body(f, a), body(g, b), x, alone(body(g, b)), 1, 50);
            }
        });
    }
    {
        const size_t F = YS_CODEPOINT_FUNCTIONS;
        const size_t B = T ? 64 : 256;
        h.add("code-points", fmt("%zu functions of one code point for all code points of a block of %zu on one thread, and in the opposite order on the other; up to 1 preemption", F, B), 0x110000 / B, [=](Ctx& c, uint64_t blk)
        {
            char32_t a = char32_t(blk * B);
            within(c, 600, 10);
            c.sample([&] { return fmt("U+%04X - U+%04X", unsigned(a), unsigned(a + B - 1)); });
            auto body = [=](bool rev)
            {
                return [=]
                {
                    vector<uint32_t> v(B * F);
                    for (size_t i = 0; i < B * F; ++i)
                    {
                        size_t k = rev ? B * F - 1 - i : i;
                        v[k] = ys_codepoint(k % F, char32_t(a + k / F));
                    }
                    return string(reinterpret_cast<char*>(v.data()), v.size() * 4);
                };
            };
            auto want = alone(body(false));
            pair(c, fmt("code points from U+%04X", unsigned(a)), body(false), body(true), want, want, 1, T ? 500 : 20);
        });
    }
}
