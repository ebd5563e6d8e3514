// C35: how the cost of a call grows with its arguments. The library is built so that
// every basic block counts one; copied, compared, searched and allocated bytes count too.
#include <cstdint>
#include <cstdlib>
#include <new>
#include <string>

static uint64_t g_cost;
static bool g_count;

extern "C"
{
    // Called at every basic block of the library and of the templates used here.
    __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { g_cost += 4; }

#define COUNTED __attribute__((no_sanitize_coverage))
    void* __real_memcpy(void*, const void*, size_t);
    void* __real_memmove(void*, const void*, size_t);
    void* __real_memset(void*, int, size_t);
    void* __real_memchr(const void*, int, size_t);
    void* __real_memrchr(const void*, int, size_t);
    void* __real_memmem(const void*, size_t, const void*, size_t);
    int __real_memcmp(const void*, const void*, size_t);
    size_t __real_strlen(const char*);
    void* __real_malloc(size_t);
    void* __real_realloc(void*, size_t);
    void* __real_calloc(size_t, size_t);

    COUNTED void* __wrap_memcpy(void* a, const void* b, size_t n) { g_cost += n; return __real_memcpy(a, b, n); }
    COUNTED void* __wrap_memmove(void* a, const void* b, size_t n) { g_cost += n; return __real_memmove(a, b, n); }
    COUNTED void* __wrap_memset(void* a, int c, size_t n) { g_cost += n; return __real_memset(a, c, n); }
    COUNTED void* __wrap_memchr(const void* a, int c, size_t n)
    {
        auto r = __real_memchr(a, c, n);
        g_cost += r ? size_t(static_cast<char*>(r) - static_cast<const char*>(a)) : n;
        return r;
    }
    COUNTED void* __wrap_memrchr(const void* a, int c, size_t n)
    {
        auto r = __real_memrchr(a, c, n);
        g_cost += r ? size_t(static_cast<const char*>(a) + n - static_cast<char*>(r)) : n;
        return r;
    }
    COUNTED void* __wrap_memmem(const void* a, size_t n, const void* b, size_t m)
    {
        auto r = __real_memmem(a, n, b, m);
        g_cost += m + (r ? size_t(static_cast<char*>(r) - static_cast<const char*>(a)) : n);
        return r;
    }
    COUNTED int __wrap_memcmp(const void* a, const void* b, size_t n)
    {
        auto p = static_cast<const unsigned char*>(a), q = static_cast<const unsigned char*>(b);
        size_t i = 0;
        while (i < n && p[i] == q[i])
            ++i;
        g_cost += i;
        return i == n ? 0 : p[i] < q[i] ? -1 : 1;
    }
    COUNTED size_t __wrap_strlen(const char* s) { auto n = __real_strlen(s); g_cost += n; return n; }
    COUNTED void* __wrap_malloc(size_t n) { g_cost += n; return __real_malloc(n); }
    COUNTED void* __wrap_realloc(void* p, size_t n) { g_cost += n; return __real_realloc(p, n); }
    COUNTED void* __wrap_calloc(size_t n, size_t m) { g_cost += n * m; return __real_calloc(n, m); }
}

COUNTED void* operator new(size_t n)
{
    g_cost += n;
    if (auto p = __real_malloc(n ? n : 1))
        return p;
    throw std::bad_alloc();
}
COUNTED void operator delete(void* p) noexcept { free(p); }
COUNTED void operator delete(void* p, size_t) noexcept { free(p); }

#include "common.hpp"
#include "Ystring/Ystring.hpp"
#include "Ystring/CodepointPredicates.hpp"
#include "Ystring/Escape.hpp"
#include "Ystring/Normalize.hpp"
#include "Ystring/TokenIterator.hpp"
#include "Ystring/Unescape.hpp"

using namespace mc;
using namespace ystring;
using std::u32string_view;
namespace ci = ystring::case_insensitive;

// The costs of the calls made for one size.
static vector<std::pair<const char*, uint64_t>>* g_calls;

template <typename F>
static void costs(Ctx& c, const char* what, F f)
{
    c.call();
    c.note(what);
    auto before = g_cost;
    try
    {
        f();
    }
    catch (const YstringException&)
    {
    }
    auto cost = g_cost - before;
    g_calls->emplace_back(what, cost);
}

// One call. Its arguments are made in advance.
#define COST(expr) costs(c, #expr, [&] { (void)(expr); })

static const CodepointSet& some_set()
{
    static const CodepointSet s = []
    {
        CodepointSet r;
        r.add_codepoints(U"a\u00E9");
        r.add_range(0x400, 0x410);
        return r;
    }();
    return s;
}

template <typename F>
static void steps(string_view s, F f)
{
    auto v = s;
    while (f(v))
    {
    }
}

static void one_string(Ctx& c, string_view s)
{
    auto n = ptrdiff_t(s.size());
    auto never = [](char32_t) { return false; };
    auto always = [](char32_t) { return true; };
    COST(append(s, U'\u20AC'));
    {
        string t;
        COST(({ for (int i = 0; i < n; ++i) append(t, U'\u20AC'); }));
    }
    COST(ystring::contains(s, U'\u4E00'));
    COST(count_chars(s));
    COST(count_codepoints(s));
    COST(is_valid_utf8(s));
    COST(replace_invalid_utf8(s));
    COST(replace_invalid_utf8(s, U'\U0001F600'));
    {
        string t(s);
        COST(replace_invalid_utf8(t));
    }
    COST(ystring::reverse(s));
    COST(split_lines(s));
    COST(split_lines(s, {1, true}));
    COST(split_lines(s, IGNORE_EMPTY));
    COST(split(s, U"a \u00E9"sv));
    COST(split(s, U""sv, IGNORE_EMPTY));
    COST(ci::split(s, U"A \u00C9"sv));
    COST(trim(s));
    COST(trim(s, U"a\u00E9\0"sv));
    COST(trim_start(s, U"a\u00E9 \u0301"sv));
    COST(trim_end(s, U"a\u00E9 \u0301"sv));
    COST(trim_where(s, always));
    COST(ystring::to_lower(s));
    COST(ystring::to_upper(s));
    COST(ystring::to_title(s));
    COST(to_composed(s));
    COST(to_decomposed(s));
    COST(to_utf32(s));
    COST(escape_json(s));
    COST(has_escapable_chars(s));
    COST(has_escaped_chars(s));
    COST(find_first_escapable_char(s));
    COST(find_first_escaped_char(s));
    COST(unescape(string(s)));
    {
        string t(s);
        COST(unescape(t.data(), t.size()));
    }
    COST(find_first_newline(s));
    COST(find_last_newline(s));
    COST(find_first_of(s, U"\u4E00"sv));
    COST(find_first_of(s, some_set()));
    COST(find_last_of(s, U"\u4E00"sv));
    COST(find_last_of(s, some_set()));
    COST(find_first_where(s, never));
    COST(find_last_where(s, never));
    COST(ci::find_first_of(s, U"\u4E00"sv));
    COST(ci::find_last_of(s, U"\u4E00"sv));
    COST(get_next_char_range(s, 0));
    COST(get_prev_char_range(s, s.size()));
    COST(replace_codepoint(s, 'a', U'\u00E9'));
    COST(replace_codepoint(s, U'\u00E9', 'a', -n));
    // stepping from one end to the other
    COST(steps(s, [](auto& v) { return remove_utf8_codepoint(v); }));
    COST(steps(s, [](auto& v) { return remove_last_utf8_codepoint(v); }));
    COST(steps(s, [](auto& v) { return pop_utf8_codepoint(v).has_value(); }));
    COST(steps(s, [](auto& v) { return pop_last_utf8_codepoint(v).has_value(); }));
    COST(steps(s, [](auto& v) { return unescape_next(v).has_value(); }));
    auto tokens = [&](auto finder)
    {
        TokenIterator it(s, finder);
        while (it.next())
            (void)(it.part().size() + it.token().size() + it.remainder().size());
    };
    COST(tokens([](string_view v) { return find_first_newline(v); }));
    COST(tokens([](string_view v) { return find_first_of(v, U"a\u00E9"sv).first; }));
    COST(tokens([](string_view v) { return get_next_char_range(v, 0); }));
    // positions
    for (auto i : {n / 2, n, -n / 2, -n, PTRDIFF_MAX, PTRDIFF_MIN})
    {
        COST(get_char_pos(s, i));
        COST(get_char_range(s, i));
        COST(get_codepoint(s, i));
        COST(get_codepoint_pos(s, i));
        COST(insert_char(s, i, 'x'));
        COST(insert_codepoint(s, i, 'x'));
        COST(insert_codepoints(s, i, "xyz"));
        for (auto j : {n / 2, -n / 2, PTRDIFF_MAX, PTRDIFF_MIN})
        {
            COST(get_char_substring(s, i, j));
            COST(get_codepoint_substring(s, i, j));
            COST(replace_chars(s, i, j, "-+"));
            COST(replace_codepoints(s, i, j, "-+"));
        }
    }
}

static void with_pattern(Ctx& c, string_view s, string_view t)
{
    COST(starts_with(s, t));
    COST(ends_with(s, t));
    COST(find_first(s, t));
    COST(find_last(s, t));
    COST(ci::find_first(s, t));
    COST(ci::find_last(s, t));
    COST(ci::starts_with(s, t));
    COST(ci::ends_with(s, t));
    COST(split(s, t));
    COST(split(s, t, IGNORE_EMPTY));
    COST(ci::split(s, t));
    for (auto k : {PTRDIFF_MAX, PTRDIFF_MIN, ptrdiff_t(s.size() / 3), -ptrdiff_t(s.size() / 3)})
    {
        COST(replace(s, t, "xyz", k));
        COST(replace(s, t, "", k));
        COST(ci::replace(s, t, "xyz", k));
        COST(ci::replace(s, t, t, k));
    }
    COST(insert_chars(s, -1, t));
    COST(insert_codepoints(s, 1, t));
    COST(ci::compare(s, t));
    vector<string_view> v{s, t, s};
    COST(join(v.begin(), v.end(), t));
    auto tokens = [&](auto finder)
    {
        TokenIterator it(s, finder);
        while (it.next())
        {
        }
    };
    COST(tokens([&](string_view x) { return find_first(x, t); }));
    COST(tokens([&](string_view x) { return ci::find_first(x, t); }));
}

// Two arguments that grow together.
static void together(Ctx& c, string_view s, string_view t)
{
    COST(starts_with(s, t));
    COST(ends_with(s, t));
    COST(ci::compare(s, t));
    COST(ci::equal(s, t));
    COST(ci::less(s, t));
    COST(ci::starts_with(s, t));
    COST(ci::ends_with(s, t));
    COST(insert_chars(s, -1, t));
    COST(insert_codepoints(s, 1, t));
    COST(replace_chars(s, 1, -1, t));
    COST(replace_codepoints(s, 1, -1, t));
    vector<string_view> parts(s.size(), "ab");
    COST(join(parts.begin(), parts.end(), ", "));
    vector<string_view> two{s, t};
    COST(join(two.begin(), two.end(), t));
}

static void lists(Ctx& c, string_view text, u32string_view l)
{
    COST(from_utf32(l));
    COST(ystring::contains(l, U'\u4E00'));
    COST(case_insensitive_contains(l, U'\u4E00'));
    COST(find_first_of(text, l));
    COST(find_last_of(text, l));
    COST(ci::find_first_of(text, l));
    COST(ci::find_last_of(text, l));
    COST(trim(text, l));
    COST(split(text, l));
    COST(ci::split(text, l));
    CodepointSet set;
    COST(set.add_codepoints(l));
    CodepointSet one;
    COST(({ for (auto ch : l) one.add_codepoint(ch); }));
    CodepointSet ranges;
    COST(({ for (auto ch : l) ranges.add_range(ch, ch + 2); }));
    COST(set.contains(U'\u4E00'));
    COST(ranges.case_insensitive_contains(U'\u4E00'));
    COST(find_first_of(text, set));
    COST(ci::find_last_of(text, ranges));
}

// Makes the calls for sizes n, 2n, 4n, 8n. From one doubling to the next the cost may
// grow twice as much as before (and a little more), not four times.
template <typename F>
static void growth(Ctx& c, const string& name, size_t n, F make)
{
    vector<std::pair<const char*, uint64_t>> calls[4];
    static vector<std::pair<const char*, uint64_t>> scratch;
    scratch.clear();
    g_calls = &scratch;
    make(n); // what is only done once, is done now
    for (int i = 0; i < 4; ++i)
    {
        calls[i].reserve(400);
        g_calls = &calls[i];
        make(n << i);
        c.state();
    }
    for (size_t k = 0; k < calls[0].size(); ++k)
    {
        int64_t d[3];
        for (int i = 0; i < 3; ++i)
            d[i] = int64_t(calls[i + 1][k].second) - int64_t(calls[i][k].second);
        c.outcome(hash(string_view(calls[0][k].first)) + calls[3][k].second);
        if (d[0] > int64_t(n) / 8 && d[1] > 2.7 * d[0] && d[2] > 2.8 * d[1])
        {
            c.fail(fmt("%s for %s: cost %llu, %llu, %llu, %llu with %zu, %zu, %zu, %zu repetitions: grows faster than the argument", calls[0][k].first, name.c_str(),
                       (unsigned long long)calls[0][k].second, (unsigned long long)calls[1][k].second, (unsigned long long)calls[2][k].second, (unsigned long long)calls[3][k].second, n,
                       2 * n, 4 * n, 8 * n));
        }
    }
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    const size_t N = 192;
    auto syms = std::make_shared<vector<string>>(concat(us(U"aA \u00E9\u0301\u20AC\U0001F600\n\r\u2028\\,\"\u0001\u1E69"), bytes({0xFF, 0x80, 0xC3, 0xF0})));
    syms->insert(syms->end(), {"\\n", "\\x", "\\u0041", "\\uD83D", "0", "\xE2\x82"});
    {
        StringSpace sp(*syms, 1, 2);
        vector<std::pair<string, string>> ends = {{"", ""}, {"", "x"}, {"x", ""}, {"x", "x"}, {"", "\xFF"}, {"\xFF", ""}, {"\\", ""}, {"", "\\"}, {"", "\xC3"}, {"\u0301", "\u00E9"}, {"a", "\n"}, {"\xF0", "\xF0"}};
        if (!T)
            ends = {{"", ""}, {"x", "x"}, {"", "\xFF"}, {"\\", ""}, {"\xC3", "\n"}};
        h.add("one-string", fmt("u v^k w for all v of up to 2 of %zu symbols and %zu pairs u, w; k = %zu, %zu, %zu, %zu: every function of one string", syms->size(), ends.size(), N, 2 * N, 4 * N, 8 * N), sp.count() * ends.size(),
              [=](Ctx& c, uint64_t i)
        {
            auto v = sp.get(i / ends.size());
            auto& [a, b] = ends[i % ends.size()];
            c.sample([&] { return "costs of every function on " + show(a) + " " + show(v) + "^k " + show(b); });
            growth(c, show(a) + " " + show(v) + "^k " + show(b), N, [&](size_t k)
            {
                auto s = a + repeat(v, k) + b;
                one_string(c, s);
            });
        }, 4);
    }
    if (T)
    {
        StringSpace sp(*syms, 3, 3);
        h.add("longer-parts", fmt("v^k for all v of 3 of %zu symbols", syms->size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto v = sp.get(i);
            growth(c, show(v) + "^k", N, [&](size_t k)
            {
                one_string(c, repeat(v, k));
            });
        }, 4);
    }
    {
        vector<string> vs = {"a", "ab", "aA", "aab", u(0xE9), "a\u0301", "\u00DF", "\U0001F600", ",", "\xFF", "a\xC3", "ba"};
        StringSpace ps(vector<string>{"a", "b", "A", u(0xE9), "\xC3"}, 0, T ? 4 : 3);
        h.add("patterns", fmt("texts u v^k w for 12 v and 4 pairs u, w with all patterns of up to %d of {a b A e-acute, byte C3}: every function of two strings", T ? 4 : 3), ps.count() * vs.size() * 4, [=](Ctx& c, uint64_t i)
        {
            auto p = ps.get(i / (vs.size() * 4));
            auto& v = vs[i % vs.size()];
            auto j = i / vs.size() % 4;
            string a = j & 1 ? "x" : "", b = j & 2 ? "b" : "";
            growth(c, show(a) + " " + show(v) + "^k " + show(b) + " and " + show(p), N, [&](size_t k)
            {
                with_pattern(c, a + repeat(v, k) + b, p);
            });
        }, 16);
    }
    {
        auto vs = *syms;
        vector<string> texts = {"", "a", "aaaaaaaa", "\u00E9a\u00E9", "abcabcabc", "\xFF", ",,,,"};
        h.add("long-patterns", fmt("fixed texts with a second string u v^k w that grows, %zu v: every function of two strings; both growing: those that compare or splice", vs.size()), vs.size() * texts.size() * 4, [=](Ctx& c, uint64_t i)
        {
            auto& v = vs[i % vs.size()];
            auto& t = texts[i / vs.size() % texts.size()];
            auto j = i / vs.size() / texts.size();
            string a = j & 1 ? "x" : "", b = j & 2 ? "\u00E9" : "";
            growth(c, show(t) + " and " + show(a) + " " + show(v) + "^k " + show(b), N, [&](size_t k)
            {
                auto p = a + repeat(v, k) + b;
                with_pattern(c, t, p);
                together(c, t + p, p);
                together(c, p, p + t);
            });
        }, 8);
    }
    {
        vector<string> texts = {"", "a", "abcabc,,", "\u00E9\u4E00\u00E9"};
        h.add("lists", "lists of code points that grow: repeated, falling, alternating, spread, beyond 10FFFF; fixed texts and 4 that grow", texts.size() * 6, [=](Ctx& c, uint64_t i)
        {
            auto& t = texts[i % texts.size()];
            auto kind = i / texts.size();
            growth(c, fmt("list %d and ", int(kind)) + show(t), N, [&](size_t k)
            {
                u32string l;
                for (size_t x = 0; x < k; ++x)
                    l.push_back(char32_t(kind == 0 ? 'b' : kind == 1 ? 0x5000 - x : kind == 2 ? (x % 2 ? 0x3000 : 0x300) : kind == 3 ? 0x100 + 5 * x : kind == 4 ? 0x110000 + x : 0x80 + x));
                lists(c, t, l);
            });
            growth(c, fmt("list and ") + show(t) + "^k", N, [&](size_t k)
            {
                lists(c, repeat(t, k), kind < 3 ? U"\u4E01b"sv : U"A\u00C9 ,"sv);
            });
        }, 1);
    }
}
