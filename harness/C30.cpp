// C30: memory runs out at every allocation of every call, one at a time.
#include <cstdlib>
#include <new>
#include "digest.hpp"

using namespace mc;

// The allocator under control. Counts what is live, and fails the g_fail-th
// allocation made while armed.
static bool g_armed;
static unsigned long g_seen, g_fail;
static long g_live;

static bool fails()
{
    return g_armed && ++g_seen == g_fail;
}

extern "C"
{
    void* __real_malloc(size_t);
    void* __real_calloc(size_t, size_t);
    void* __real_realloc(void*, size_t);
    void __real_free(void*);

    // malloc and friends as called by the library itself (linked with --wrap).
    void* __wrap_malloc(size_t n)
    {
        if (fails())
            return nullptr;
        auto p = __real_malloc(n);
        g_live += p != nullptr;
        return p;
    }
    void* __wrap_calloc(size_t n, size_t m)
    {
        if (fails())
            return nullptr;
        auto p = __real_calloc(n, m);
        g_live += p != nullptr;
        return p;
    }
    void* __wrap_realloc(void* q, size_t n)
    {
        if (fails())
            return nullptr;
        auto p = __real_realloc(q, n);
        g_live += !q && p;
        return p;
    }
    void __wrap_free(void* p)
    {
        g_live -= p != nullptr;
        __real_free(p);
    }
}

static void* get(size_t n, size_t align)
{
    if (fails())
        return nullptr;
    void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : __real_malloc(n ? n : 1);
    g_live += p != nullptr;
    return p;
}
static void* get_or_throw(size_t n, size_t align)
{
    if (auto p = get(n, align))
        return p;
    throw std::bad_alloc();
}
static void put(void* p)
{
    g_live -= p != nullptr;
    __real_free(p);
}

void* operator new(size_t n) { return get_or_throw(n, 1); }
void* operator new[](size_t n) { return get_or_throw(n, 1); }
void* operator new(size_t n, std::align_val_t a) { return get_or_throw(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return get_or_throw(n, size_t(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, 1); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return get(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return get(n, size_t(a)); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }

struct Armed
{
    explicit Armed(unsigned long fail)
    {
        g_seen = 0;
        g_fail = fail;
        g_armed = true;
    }
    ~Armed() { g_armed = false; }
};

enum class End { normal, expected_exception, bad_alloc, other };

struct CallRun
{
    End end = End::other;
    uint64_t value = 0;
    unsigned long seen = 0;
    long left = 0;

    bool operator==(const CallRun& r) const { return end == r.end && value == r.value; }
};

template <typename F>
static CallRun run_once(unsigned long fail, F& f)
{
    CallRun r;
    long before = g_live;
    try
    {
        Armed a(fail);
        auto&& v = f();
        g_armed = false;
        r.value = digest(v);
        r.end = End::normal;
    }
    catch (const ystring::YstringException& e)
    {
        r.value = hash(string_view(e.what()));
        r.end = End::expected_exception;
    }
    catch (const std::bad_alloc&)
    {
        r.end = End::bad_alloc;
    }
    catch (...)
    {
    }
    r.seen = g_seen;
    r.left = g_live - before;
    return r;
}

// A call that leaves memory behind may have filled a cache; one that does so
// every time leaks.
template <typename F>
static bool leaks(unsigned long fail, F& f)
{
    for (int k = 0; k < 4; ++k)
    {
        if (run_once(fail, f).left <= 0)
            return false;
    }
    return true;
}

static unsigned long g_limit = 200; // failing allocations tried per call: the first ones, and the last

template <typename F>
static void with_failures(Ctx& c, const char* what, string_view s, F f)
{
    c.call();
    c.note(what);
    auto normal = run_once(0, f);
    MC_OK(c, normal.end == End::normal || normal.end == End::expected_exception, "%s on %s throws something else than YstringException", what, show(s).c_str());
    if (normal.left > 0)
        MC_OK(c, !leaks(0, f), "%s on %s leaks memory", what, show(s).c_str());
    for (unsigned long k = 1;; ++k)
    {
        if (k > g_limit)
        {
            auto n = run_once(0, f).seen;
            if (n > k + 8)
                k = n - 8;
        }
        auto r = run_once(k, f);
        c.call();
        if (r.seen < k)
        {
            MC_OK(c, r == normal, "%s on %s: the result changes after allocations have failed", what, show(s).c_str());
            break;
        }
        c.state();
        c.outcome(mix(hash(string_view(what)), mix(k, uint64_t(r.end))));
        auto at = [&] { return fmt("%s on %s when allocation %lu fails", what, show(s).c_str(), k); };
        MC_OK(c, r.end != End::other, "%s: an exception other than bad_alloc", at().c_str());
        MC_OK(c, r.end == End::bad_alloc || r == normal, "%s: a different result", at().c_str());
        if (r.left > 0)
            MC_OK(c, !leaks(k, f), "%s: memory leaks", at().c_str());
        auto again = run_once(0, f);
        MC_OK(c, again == normal, "%s: the next call gives a different result", at().c_str());
    }
}

#define CALL(in, expr) with_failures((in).c, #expr, (in).s, [&]() -> decltype(auto) { return (expr); })
#include "all_calls.hpp"

// A call that edits its argument. keeps(before, after) says whether a failure left it acceptable.
template <typename T, typename F, typename K>
static void edits(Ctx& c, const char* what, const T& arg, F f, K keeps)
{
    c.note(what);
    for (unsigned long k = 1;; ++k)
    {
        T t(arg);
        c.call();
        bool failed = false;
        unsigned long seen;
        try
        {
            Armed a(k);
            f(t);
        }
        catch (const ystring::YstringException&)
        {
        }
        catch (const std::bad_alloc&)
        {
            failed = true;
        }
        seen = g_seen;
        if (seen < k)
            break;
        c.state();
        if (failed)
            MC_OK(c, keeps(arg, t), "%s: when allocation %lu fails, the argument is damaged", what, k);
    }
}

static bool same_view(string_view a, string_view b) { return a.data() == b.data() && a.size() == b.size(); }

static void in_place(Ctx& c, const string& s)
{
    auto same = [](const string& a, const string& b) { return a == b; };
    for (auto cap : {size_t(0), s.size() + 1, s.size() + 2, s.size() + 3})
    {
        struct Str : string
        {
            size_t cap;
            Str(const string& v, size_t n) : string(v), cap(n) { reserve(n); }
            Str(const Str& v) : string(v), cap(v.cap) { reserve(cap); }
        };
        Str str(s, cap);
        for (char32_t ch : {U'x', U'\u00E9', U'\u20AC', U'\U0001F600', char32_t(0x110000)})
            edits(c, "append", str, [&](Str& t) { append(t, ch); }, [](const Str& a, const Str& b) { return b.compare(0, a.size(), a) == 0 && b.size() < a.size() + 4; });
        edits(c, "replace_invalid_utf8", str, [](Str& t) { replace_invalid_utf8(t); }, same);
    }
    edits(c, "unescape_next", string_view(s), [](string_view& v) { while (unescape_next(v)) {} }, [](string_view a, string_view b) { return b.data() + b.size() == a.data() + a.size() && b.size() <= a.size(); });
    edits(c, "pop_utf8_codepoint", string_view(s), [](string_view& v) { (void)pop_utf8_codepoint(v); }, same_view);
    edits(c, "pop_last_utf8_codepoint", string_view(s), [](string_view& v) { (void)pop_last_utf8_codepoint(v); }, same_view);
    // A step that fails can be repeated.
    string_view v = s;
    while (!v.empty())
    {
        edits(c, "unescape_next, one step", v, [](string_view& w) { (void)unescape_next(w); }, [](string_view a, string_view b)
        {
            auto skip = a;
            while (skip.substr(0, 2) == "\\\n")
            {
                if (same_view(skip, b))
                    return true;
                skip.remove_prefix(2);
            }
            return same_view(skip, b);
        });
        try
        {
            if (!unescape_next(v))
                break;
        }
        catch (const ystring::YstringException&)
        {
            break;
        }
    }
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    auto all = [](Ctx& c, const string& s)
    {
        Exact e(s);
        one_string({c, e.view()});
        MC_OK(c, e.view() == s, "%s is changed", show(s).c_str());
    };
    {
        StringSpace sp(byte_classes(), 0, T ? 4 : 3);
        h.add("bytes", fmt("all strings of up to %d of 16 byte classes: every function of one string, each of its allocations failing in turn", T ? 4 : 3), sp.count(), [=](Ctx& c, uint64_t i)
        {
            c.sample([&] { return "every function on " + show(sp.get(i)); });
            all(c, sp.get(i));
        }, 4);
    }
    {
        auto al = us(U"aAs\u0301\u0308\u0323\u00C4\u1E69\u1F82\u00DF\u0131\u3042\u3099\U00011099\U000110BA\r\n \\\""s);
        al.push_back("\xCC");
        StringSpace sp(al, 1, T ? 4 : 3);
        h.add("texts", fmt("all strings of up to %d of %zu code points and bytes that combine, change length with case, end lines or are escaped", T ? 4 : 3, al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            c.sample([&] { return "every function on " + show(sp.get(i)); });
            all(c, sp.get(i));
        }, 4);
    }
    {
        // From 16 bytes on, std::string has to allocate.
        vector<string> vs = {"a", "a,", u(0xE9), "A" + u(0x301), u(0x1F600), "\x80", u(0x1F82), "\\n", "\"", "\r\n", u(0xDF), "a ", "\\u00E9", "\\"};
        vector<string> ws = {"", "\xE2\x82", "\\", "\\x"};
        vector<size_t> ks = {3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 31, 32, 33, 65};
        if (T)
            ks.insert(ks.end(), {18, 25, 48, 63, 128, 257, 1025});
        h.add("pumped", fmt("v^k w for %zu counts k up to %zu, %zu v, %zu w: every function of one and of two strings", ks.size(), ks.back(), vs.size(), ws.size()), ks.size() * vs.size() * ws.size(), [=](Ctx& c, uint64_t i)
        {
            auto& v = vs[i % vs.size()];
            auto& w = ws[i / vs.size() % ws.size()];
            size_t k = ks[i / vs.size() / ws.size()];
            auto s = repeat(v, k) + w;
            c.sample([&] { return "every function on " + show(s); });
            all(c, s);
            Exact e(s), p(repeat(v, k / 2) + w), q(v), z(string("\xC3") + string(20, 'x'));
            two_strings(c, e.view(), p.view());
            two_strings(c, e.view(), q.view());
            two_strings(c, q.view(), e.view());
            two_strings(c, e.view(), z.view());
            if (k < 18)
                indexed(c, e.view());
        }, 1);
    }
    {
        auto al = concat(bytes({0xE2, 0x80}), us(U"aA\u00DF\\"));
        StringSpace sp(al, 0, T ? 4 : 3);
        h.add("pairs", fmt("all ordered pairs of strings of up to %d of %zu symbols: every function of two strings", T ? 4 : 3, al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            c.sample([&] { return "every function of " + show(sp.get(i)) + " and each string"; });
            Exact a(sp.get(i));
            for (uint64_t k = 0; k < sp.count(); ++k)
            {
                Exact b(sp.get(k));
                two_strings(c, a.view(), b.view());
                MC_OK(c, a.view() == sp.get(i) && b.view() == sp.get(k), "an argument is changed");
            }
        }, 1);
    }
    {
        auto al = concat(bytes({'a', 0x80, 0xE2}), us(U"\u00E9\u0301\U0001F600\r\n"));
        StringSpace sp(al, 0, T ? 4 : 3);
        h.add("indexes", fmt("all strings of up to %d of 3 byte classes and 5 code points: every function of an index", T ? 4 : 3), sp.count(), [=](Ctx& c, uint64_t i)
        {
            c.sample([&] { return "every function of an index on " + show(sp.get(i)); });
            Exact e(sp.get(i));
            indexed(c, e.view());
            MC_OK(c, e.view() == sp.get(i), "the argument is changed");
        }, 1);
    }
    {
        auto v = std::make_shared<u32string>(reps());
        for (uint32_t k = 0; k < 0x110000; k += T ? 1 : 13)
            v->push_back(k);
        v->append({0xD800, 0xDFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF});
        h.add("codepoints", fmt("every function of a code point with %zu values; of a string with the representatives repeated", v->size()), v->size(), [=](Ctx& c, uint64_t i)
        {
            c.sample([&] { return fmt("every function of U+%04X", unsigned((*v)[i])); });
            codepoint(c, (*v)[i]);
            if (i < reps().size())
            {
                all(c, u((*v)[i]));
                all(c, repeat("aZ " + u((*v)[i]), 9));
            }
        }, 8);
    }
    {
        vector<string> tok = {"\\x", "\\u", "\\", "0", "41", "D83D", "\\uDE00", "\\7", "\\n", "\xE2", "\\\n", u(0xE9)};
        StringSpace sp(tok, 1, T ? 5 : 4);
        h.add("in-place", fmt("all strings of up to %d of %zu pieces, alone and in front of and behind 20 letters: what a failed edit or step leaves behind, with 4 capacities", T ? 5 : 4, tok.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "edits of " + show(s); });
            in_place(c, s);
            in_place(c, s + string(20, 'n'));
            in_place(c, string(20, 'n') + s);
        }, 16);
    }
    {
        auto vs = std::make_shared<u32string>(U"\0aZ\u0131\U0010FFFF"s);
        h.add("sets", fmt("sets of up to 3 additions of ranges and code points of %zu values: a failed addition leaves the set as it was", vs->size()), vs->size() * vs->size() * vs->size(), [=](Ctx& c, uint64_t i)
        {
            size_t n = vs->size();
            char32_t x = (*vs)[i % n], y = (*vs)[i / n % n], z = (*vs)[i / n / n];
            c.sample([&] { return fmt("U+%04X, U+%04X, U+%04X", unsigned(x), unsigned(y), unsigned(z)); });
            CodepointSet s;
            auto same = [](const CodepointSet& a, const CodepointSet& b)
            {
                for (char32_t ch : U"\0\1aAzZ[\u0130\u0131\u0132\U0010FFFE\U0010FFFF"sv)
                {
                    if (a.contains(ch) != b.contains(ch))
                        return false;
                }
                return a.negated == b.negated;
            };
            for (int k = 0; k < 9; ++k)
            {
                edits(c, "add_range", s, [&](CodepointSet& t) { t.add_range(y, z); }, same);
                edits(c, "add_codepoint", s, [&](CodepointSet& t) { t.add_codepoint(x); }, same);
                if (k % 2)
                    s.add_range(x, y);
                else
                    s.add_codepoint(char32_t(z + k));
            }
            In in{c, "a\xC3\xA9"};
            CALL(in, ([&] { CodepointSet t; t.add_range(x, y); t.add_codepoints(U"abc"sv); t.add_codepoint(z); return t.contains(x); }()));
            CALL(in, ([&] { CodepointSet t(s); return find_first_of(in.s, t); }()));
        }, 4);
    }
}
