// C26: results do not depend on earlier calls. The library and the calls are
// in one shared object, whose writable memory is the library's global state.
#include <map>
#include "common.hpp"
#include "so/image.hpp"
#include "so/probes.h"

using namespace mc;

// Runs f in a fresh process (this one never calls the library) and returns what it returns.
template <typename F>
static string isolated(F f)
{
    int fd[2];
    if (pipe(fd))
        _exit(3);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        string r;
        try
        {
            r = f();
        }
        catch (const Failure& e)
        {
            r = "\1" + e.message;
        }
        size_t done = 0;
        r += "\2";
        while (done < r.size())
        {
            auto n = write(fd[1], r.data() + done, r.size() - done);
            if (n <= 0)
                break;
            done += size_t(n);
        }
        _exit(0);
    }
    close(fd[1]);
    string r;
    char buf[4096];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0)
        r.append(buf, size_t(n));
    close(fd[0]);
    int st;
    waitpid(pid, &st, 0);
    if (r.empty() || r.back() != '\2')
        return "\1the process ended: status " + show(st);
    r.pop_back();
    return r;
}

static vector<string> g_base;            // result of each probe as the first call
static vector<vector<string>> g_text;    // [function][content]
static vector<string> g_contents;
static vector<unsigned> g_changing;      // probes that change the global state
static size_t g_bytes;

static string name(size_t i) { return ys_probe_name(i); }

static void probe(Ctx& c, size_t i, const char* after)
{
    string out;
    ys_probe_run(i, &out);
    c.call();
    if (out != g_base[i])
        throw Failure{name(i) + " gives " + show(out) + after + ", but " + show(g_base[i]) + " as the first call"};
}

static void forked(Ctx& c, const std::function<void(Ctx&)>& f)
{
    auto r = isolated([&]
    {
        Ctx x;
        f(x);
        return show(size_t(x.transitions));
    });
    if (!r.empty() && r[0] == '\1')
        c.fail(r.substr(1));
    c.call(strtoull(r.c_str(), nullptr, 10));
    c.state();
}

static uint32_t model(size_t f, char32_t cp)
{
    static const uint32_t cls[30] = {1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200, 0x400, 0x800, 0x1000, 0x2000, 0x4000, 0x8000, 0x10000, 0x20000,
                                     0x40000, 0x80000, 0x100000, 0x200000, 0x400000, 0x800000, 0x1000000, 0x2000000, 0x4000000, 0x8000000, 0x10000000, 0x20000000};
    auto g = ref::gc(cp);
    uint32_t h = 0;
    switch (f)
    {
    case 0: return cls[g];
    case 1: return ref::lower(cp);
    case 2: return ref::upper(cp);
    case 3: return ref::title(cp);
    case 4:
        for (auto x : ref::decompose(std::u32string_view(&cp, 1)))
            h = h * 31 + x;
        return h;
    case 5:
    {
        bool sep = g >= ref::Zs && g <= ref::Zp, nl = (cp >= 10 && cp <= 13) || cp == 0x85;
        bool visible = g <= ref::Zp;
        return uint32_t(g <= ref::Lo) | uint32_t(ref::is_mark(cp)) << 1 | uint32_t(visible) << 2 | uint32_t(cp == 9 || nl || sep) << 3;
    }
    default:
        for (auto x : ref::enc(cp))
            h = h * 31 + uint8_t(x);
        return h;
    }
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    size_t n = ys_probe_count(), m = ys_text_count();
    auto im = Image::find();
    if (!im.found)
    {
        fprintf(stderr, "the shared object is not there\n");
        _exit(3);
    }
    g_bytes = im.bytes();
    for (size_t i = 0; i < n; ++i)
    {
        g_base.push_back(isolated([&]
        {
            string out;
            ys_probe_run(i, &out);
            return out;
        }));
        auto a = isolated([&]
        {
            auto before = im.hash();
            string out;
            ys_probe_run(i, &out);
            return before == im.hash() ? "same"s : "changed"s;
        });
        if (a != "same")
            g_changing.push_back(unsigned(i));
    }
    auto pad = [](string s)
    {
        while (s.size() < 12)
            s += s.size() % 5 == 4 ? ' ' : 'b';
        return s.substr(0, 12);
    };
    for (auto s : {"ab\n\xC3\xA9 a\tb", "aaaaaaaaaaaa", "bbbbbbbbbbbb", "\xE2\x82\xAC\xE2\x82\xAC\xE2\x82\xAC\xE2\x82\xAC", "\xC3\xA9\xC3\xA9\xC3\xA9\xC3\xA9\xC3\xA9\xC3\xA9", "A\xCC\x81" "B\xCC\x88" "a", "\r\n\r\n\n\n a\r\n b",
                   "\\n\\x41\\t\"a", "ab\xC3", "            ", "ABCDEFabcdef", "\xF0\x9F\x98\x80 a b"})
        g_contents.push_back(pad(s));
    g_contents.push_back(g_contents[0].substr(0, 5));
    g_contents.push_back(g_contents[5].substr(0, 6));
    g_contents.push_back("");
    g_contents.push_back(repeat("Ab c\xC3\xA9\n", 43));
    g_contents.push_back(repeat("x\xCC\x81\\t", 1000));
    g_contents.push_back(repeat("ab ", 90) + "\xC3");
    for (size_t f = 0; f < m; ++f)
    {
        g_text.emplace_back();
        for (auto& s : g_contents)
        {
            g_text.back().push_back(isolated([&]
            {
                string out;
                ys_text_run(f, s.data(), s.size(), &out);
                return out;
            }));
        }
    }
    h.add("deterministic", fmt("%zu calls, each as the first call of a fresh process, twice", n), n, [](Ctx& c, uint64_t i)
    {
        c.sample([&] { return name(i) + " = " + show(g_base[i]); });
        MC_OK(c, g_base[i].empty() || g_base[i][0] != '\1', "%s: %s", ys_probe_name(i), g_base[i].c_str() + 1);
        forked(c, [&](Ctx& x) { probe(x, i, " in a second process"); });
        c.outcome(hash(g_base[i]));
    }, 4);
    h.add("global-state", fmt("the %zu bytes of writable memory of the library before and after each of %zu calls in a fresh process: %zu calls change them%s", g_bytes, n, g_changing.size(),
                              g_changing.empty() ? ", so one state is reachable and every history of these calls, of any length, is equivalent to the empty one" : ""), n, [im](Ctx& c, uint64_t i)
    {
        c.sample([&] { return name(i) + (std::count(g_changing.begin(), g_changing.end(), i) ? " changes the global state" : " leaves the global state as it is"); });
        forked(c, [&](Ctx& x)
        {
            auto a = im.hash();
            probe(x, i, "");
            auto b = im.hash();
            probe(x, i, " the second time");
            if (a == b)
                MC_OK(x, im.hash() == a, "%s changes the global state the second time only", ys_probe_name(i));
        });
    }, 4);
    h.add("pairs", fmt("all %zu ordered pairs (i, j) in a fresh process: i, j, i, j", n * n), n, [n](Ctx& c, uint64_t i)
    {
        c.sample([&] { return name(i) + ", then each other call, then both again"; });
        for (size_t j = 0; j < n; ++j)
        {
            forked(c, [&](Ctx& x)
            {
                probe(x, i, "");
                auto after = " after " + name(i);
                probe(x, j, after.c_str());
                after += ", " + name(j);
                probe(x, i, after.c_str());
                probe(x, j, (after + ", " + name(i)).c_str());
            });
        }
    }, 2);
    {
        // Only calls that change the state can begin a new history.
        auto first = g_changing;
        if (T)
        {
            first.clear();
            for (unsigned i = 0; i < n; ++i)
                first.push_back(i);
        }
        auto f = std::make_shared<vector<unsigned>>(first);
        h.add("after-two", T ? "all ordered pairs (i, j) in a fresh process, followed by all calls in both directions" : "pairs (i, j) of calls that change the global state, followed by all calls in both directions",
              f->size() * f->size(), [=](Ctx& c, uint64_t k)
        {
            auto i = (*f)[k / f->size()], j = (*f)[k % f->size()];
            auto after = " after " + name(i) + ", " + name(j) + " (and others)";
            for (int dir = 0; dir < 2; ++dir)
            {
                forked(c, [&](Ctx& x)
                {
                    probe(x, i, "");
                    probe(x, j, after.c_str());
                    for (size_t q = 0; q < n; ++q)
                        probe(x, dir ? n - 1 - q : q, after.c_str());
                    c.state(n);
                });
            }
        }, 4);
    }
    h.add("repeats", fmt("each call 1-66, 127-129, 255-257%s times in a fresh process, then all calls", T ? ", 1000, 65536" : ""), n * (T ? 74 : 72), [n](Ctx& c, uint64_t k)
    {
        static const unsigned more[] = {127, 128, 129, 255, 256, 257, 1000, 65536};
        size_t i = k % n, t = k / n;
        unsigned times = t < 66 ? unsigned(t + 1) : more[t - 66];
        c.sample([&] { return name(i) + fmt(" %u times, then all calls", times); });
        forked(c, [&](Ctx& x)
        {
            auto after = " after " + name(i) + fmt(" up to %u times", times);
            for (unsigned r = 0; r < times; ++r)
                probe(x, i, after.c_str());
            for (size_t q = 0; q < n; ++q)
                probe(x, q, after.c_str());
        });
        c.state(times);
    }, 4);
    h.add("long-histories", "all calls in one process, from every start with every stride", n * 31, [n](Ctx& c, uint64_t k)
    {
        size_t s = k % n, stride = k / n * 2 + 1;
        forked(c, [&](Ctx& x)
        {
            for (int round = 0; round < 2; ++round)
            {
                for (size_t q = 0; q < n; ++q)
                    probe(x, (s + q * stride) % n, fmt(" in the history from %zu with stride %zu", s, stride).c_str());
            }
        });
        c.state(n);
    }, 8);
    h.add("same-buffer", fmt("%zu functions on one buffer whose contents change (%zu contents of the same and of smaller size): f on A, g on B, f on A, f on B, for all f, g", m, g_contents.size()), m * m, [m](Ctx& c, uint64_t k)
    {
        size_t f = k / m, g = k % m;
        forked(c, [&](Ctx& c)
        {
        alignas(16) char buf[6000];
        string out;
        auto run = [&](size_t fn, size_t content, const char* before)
        {
            auto& s = g_contents[content];
            memcpy(buf, s.data(), s.size());
            memset(buf + s.size(), '#', 16);
            ys_text_run(fn, buf, s.size(), &out);
            c.call();
            if (out != g_text[fn][content])
                throw Failure{string(ys_text_name(fn)) + " on " + show(s) + before + " gives " + show(out) + ", expected " + show(g_text[fn][content])};
            MC_OK(c, memcmp(buf, s.data(), s.size()) == 0 && buf[s.size()] == '#', "%s modified its argument %s", ys_text_name(fn), show(s).c_str());
        };
        for (size_t a = 0; a < g_contents.size(); ++a)
        {
            for (size_t b = 0; b < g_contents.size(); ++b)
            {
                run(f, a, "");
                run(g, b, " after other contents in the same buffer");
                run(f, a, " after other contents in the same buffer");
                run(f, b, " after other contents in the same buffer");
                c.state();
            }
        }
        });
        c.state(g_contents.size() * g_contents.size());
    }, 16);
    {
        size_t k = ys_object_count(), contents = ys_object_contents();
        auto base = std::make_shared<vector<vector<string>>>();
        for (size_t f = 0; f < k; ++f)
        {
            base->emplace_back();
            for (size_t i = 0; i < contents; ++i)
            {
                base->back().push_back(isolated([&]
                {
                    string out;
                    auto x = ys_object_new();
                    ys_object_fill(x, i);
                    ys_object_run(f, x, &out);
                    return out;
                }));
            }
        }
        h.add("same-object", fmt("%zu functions of one set or list of code points that changes where it is (%zu contents): f on A, g on B, f on A, f on B, for all f, g, A, B", k, contents), k * k, [=](Ctx& c, uint64_t i)
        {
            size_t f = i / k, g = i % k;
            c.sample([&] { return fmt("%s and %s on an object that changes", ys_object_name(f), ys_object_name(g)); });
            forked(c, [&](Ctx& c)
            {
                string out;
                auto x = ys_object_new();
                auto run = [&](size_t fn, size_t content, size_t before)
                {
                    ys_object_fill(x, content);
                    ys_object_run(fn, x, &out);
                    c.call();
                    if (out != (*base)[fn][content])
                        throw Failure{fmt("%s with content %zu in the place of content %zu", ys_object_name(fn), content, before) + " gives " + show(out) + ", expected " + show((*base)[fn][content])};
                };
                for (size_t a = 0; a < contents; ++a)
                {
                    for (size_t b = 0; b < contents; ++b)
                    {
                        run(f, a, b);
                        run(g, b, a);
                        run(f, a, b);
                        run(f, b, a);
                        c.state();
                    }
                }
            });
            c.outcome(hash((*base)[f][g % contents]));
            c.state(contents * contents);
        }, 8);
        const unsigned times = 65540, others = T ? 6 : 2;
        h.add("wrapping", fmt("%zu functions of a set or list, each with each of %zu contents once and then with each of %u others %u times, which takes any count of calls in 8 or 16 bits around", k, contents, others, times), k * contents, [=](Ctx& c, uint64_t i)
        {
            size_t f = i / contents, a = i % contents;
            c.sample([&] { return fmt("%s once with content %zu, then many times with others", ys_object_name(f), a); });
            forked(c, [&](Ctx& c)
            {
                string out;
                auto x = ys_object_new(), y = ys_object_new();
                ys_object_fill(x, a);
                for (size_t q = 1; q <= others; ++q)
                {
                    auto b = (a + q) % contents;
                    ys_object_fill(y, b);
                    ys_object_run(f, x, &out);
                    for (unsigned r = 0; r < times; ++r)
                    {
                        ys_object_run(f, y, &out);
                        if (out != (*base)[f][b])
                            throw Failure{fmt("%s with content %zu, after content %zu and %u calls", ys_object_name(f), b, a, r) + " gives " + show(out) + ", expected " + show((*base)[f][b])};
                    }
                    c.call(times + 1);
                }
            });
            c.state(others * (times + 1));
        }, 1);
        h.add("wrapping-texts", fmt("%zu functions, each on each of %zu texts once and then on another %u times", m, g_contents.size() - 3, times), m * (g_contents.size() - 3), [=](Ctx& c, uint64_t i)
        {
            size_t f = i % m, a = i / m;
            c.sample([&] { return string(ys_text_name(f)) + " once on " + show(g_contents[a]) + ", then many times on another"; });
            forked(c, [&](Ctx& c)
            {
                string out;
                size_t b = (a * 5 + 3) % (g_contents.size() - 3);
                auto &s = g_contents[a], &t = g_contents[b];
                ys_text_run(f, s.data(), s.size(), &out);
                for (unsigned r = 0; r < times; ++r)
                {
                    ys_text_run(f, t.data(), t.size(), &out);
                    if (out != g_text[f][b])
                        throw Failure{string(ys_text_name(f)) + " on " + show(t) + fmt(", after %u calls and one on ", r) + show(s) + " gives " + show(out) + ", expected " + show(g_text[f][b])};
                }
                c.call(times + 1);
            });
            c.state(times + 1);
        }, 1);
    }
    {
        // Contents of every size class and with every representative code point.
        auto texts = std::make_shared<vector<string>>();
        for (auto r : reps())
            texts->push_back("a" + u(r) + "b " + u(r));
        vector<size_t> sizes;
        for (size_t k = 1; k <= (T ? 140u : 40u); ++k)
            sizes.push_back(k);
        for (size_t p = 64; p <= (T ? 65536u : 4096u); p *= 2)
        {
            for (size_t d : {p - 1, p, p + 1})
            {
                if (d > sizes.back())
                    sizes.push_back(d);
            }
        }
        for (size_t k : sizes)
        {
            texts->push_back(string(k, 'b'));
            if (k < 20 || k > 60)
            {
                texts->push_back((repeat("\xC3\xA9", k / 2) + "A").substr(0, k / 2 * 2 + k % 2));
                texts->push_back(repeat("aA\n\xCC\x81 ", k / 6) + "\xE2");
            }
        }
        h.add("contents", fmt("%zu functions, %zu contents (every representative code point, sizes up to %zu): f on A, then f on B and f on A for all B, each A in a process of its own; the global state before and after every call", m, texts->size(), sizes.back()), m, [=](Ctx& c, uint64_t f)
        {
            auto& t = *texts;
            c.sample([&] { return string(ys_text_name(f)) + " on all contents"; });
            vector<string> base;
            for (auto& s : t)
            {
                base.push_back(isolated([&]
                {
                    string out;
                    auto before = im.hash();
                    ys_text_run(f, s.data(), s.size(), &out);
                    return (before == im.hash() ? "S" : "C") + out;
                }));
                c.call();
                if (base.back()[0] == '\1')
                    c.fail(string(ys_text_name(f)) + " on " + show(s) + ": " + base.back().substr(1));
                c.outcome(hash(base.back()));
            }
            for (size_t a = 0; a < t.size(); ++a)
            {
                forked(c, [&](Ctx& x)
                {
                    string out;
                    auto run = [&](size_t k, size_t other)
                    {
                        ys_text_run(f, t[k].data(), t[k].size(), &out);
                        x.call();
                        if (base[k].compare(1, string::npos, out) != 0)
                            throw Failure{string(ys_text_name(f)) + " on " + show(t[k]) + " gives " + show(out) + " after a call on " + show(t[other]) + ", but " + show(base[k].substr(1)) + " as the first call"};
                    };
                    run(a, a);
                    for (size_t b = 0; b < t.size(); ++b)
                    {
                        if (t[a].size() + t[b].size() > 10000 && b % 4 != a % 4)
                            continue;
                        run(b, a);
                        run(a, b);
                    }
                });
                c.state(t.size());
            }
        });
    }
    h.add("code-points", "f(a), g(b), f(a) for every code point a: b = a with one bit changed, a +- 1, its upper and lower case with f = g of 7 functions; b near a with all f, g", 0x110000 / 256, [T](Ctx& c, uint64_t blk)
    {
        const size_t F = YS_CODEPOINT_FUNCTIONS;
        forked(c, [&](Ctx& c)
        {
        auto check = [&](size_t f, char32_t a, size_t g, char32_t b)
        {
            if (b > ref::MAXCP)
                return;
            uint32_t want[3] = {model(f, a), model(g, b), 0};
            uint32_t got[3] = {ys_codepoint(f, a), ys_codepoint(g, b), ys_codepoint(f, a)};
            want[2] = want[0];
            c.call(3);
            c.state();
            if (memcmp(got, want, sizeof got))
                c.fail(fmt("functions %zu(%s), %zu(%s), %zu(%s): got %x %x %x, expected %x %x %x", f, show(a).c_str(), g, show(b).c_str(), f, show(a).c_str(), got[0], got[1], got[2], want[0], want[1], want[2]));
        };
        for (char32_t a = char32_t(blk * 256), k = 0; k < 256; ++k, ++a)
        {
            for (size_t f = 0; f < F; ++f)
            {
                for (int bit = 0; bit < 21; ++bit)
                    check(f, a, f, a ^ (1u << bit));
                check(f, a, f, a + 1);
                check(f, a, f, a - 1);
                check(f, a, f, ref::upper(a));
                check(f, a, f, ref::lower(a));
                if (T || a % 4 == 0)
                {
                    for (size_t g = 0; g < F; ++g)
                    {
                        check(f, a, g, a);
                        check(f, a, g, a ^ 1);
                        check(f, a, g, a ^ 0x10000);
                    }
                }
            }
        }
        });
        c.state(256 * F * 25);
    }, 8);
}
