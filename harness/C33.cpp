// C33: strings of more than 2^31 and 2^32 bytes are handled like short ones.
// The strings are one small file mapped again and again between two pages of
// their own, so they take no memory; a page that cannot be read follows.
#define MC_NO_AS_LIMIT
#include <fcntl.h>
#include "common.hpp"
#include "Ystring/Ystring.hpp"
#include "Ystring/Escape.hpp"
#include "Ystring/Unescape.hpp"
#include "Ystring/Normalize.hpp"
#include "Ystring/TokenIterator.hpp"

using namespace mc;
using namespace ystring;
namespace ci = ystring::case_insensitive;

static const size_t TILE = size_t(2) << 20, PAGE = 4096;

struct Big
{
    char* base;
    size_t reserved;
    size_t size;

    string_view view() const { return {base, size}; }
    string_view operator*() const { return view(); }

    // head fill fill ... fill tail, of tiles * TILE bytes and two pages.
    Big(size_t tiles, const string& head, const string& fill, const string& tail, bool writable = false)
        : reserved(tiles * TILE + 3 * PAGE), size(tiles * TILE + 2 * PAGE)
    {
        auto page = [&](const string& a, const string& z)
        {
            auto rest = (PAGE - a.size() - z.size()) % fill.size();
            auto r = a + (uint8_t(fill[0]) < 0x80 ? fill.substr(fill.size() - rest, rest) : string());
            while (r.size() + z.size() < PAGE)
                r += fill;
            r += z;
            if (r.size() != PAGE)
                throw Failure("the page's size is wrong");
            return r;
        };
        auto must = [](bool ok)
        {
            if (!ok)
            {
                g_shared->inconclusive = true;
                throw Failure("the string cannot be mapped");
            }
        };
        base = static_cast<char*>(mmap(nullptr, reserved, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        must(base != MAP_FAILED);
        int fd = memfd_create("fill", 0);
        must(fd >= 0);
        string t = repeat(fill, TILE / fill.size());
        must(t.size() == TILE && write(fd, t.data(), TILE) == ssize_t(TILE));
        for (size_t k = 0; k < tiles; ++k)
            must(mmap(base + PAGE + k * TILE, TILE, writable ? PROT_READ | PROT_WRITE : PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED);
        close(fd);
        for (auto [at, text] : {std::pair(base, page(head, "")), std::pair(base + size - PAGE, page("", tail))})
        {
            must(mmap(at, PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) != MAP_FAILED);
            memcpy(at, text.data(), PAGE);
            if (!writable)
                mprotect(at, PAGE, PROT_READ);
        }
    }
    Big(const Big&) = delete;
    ~Big() { munmap(base, reserved); }
};

static const string SMILE = "\xF0\x9F\x98\x80";

struct Case
{
    string name, head, fill, tail;
    std::function<void(Ctx&, string_view)> run;
};

#define IS(expr, want)                                                                                                    \
    do                                                                                                                    \
    {                                                                                                                     \
        c.call();                                                                                                         \
        c.note(#expr);                                                                                                    \
        auto got_ = (expr);                                                                                               \
        c.state();                                                                                                        \
        MC_OK(c, got_ == (want), "%s on a string of %zu bytes gives %s instead of %s", #expr, s.size(), text_of(got_).c_str(), text_of(decltype(got_)(want)).c_str()); \
    } while (0)

static string text_of(const std::pair<Subrange, char32_t>& p) { return mc::show(p.first) + fmt(" U+%04X", unsigned(p.second)); }
static string text_of(const string& s) { return s.size() > 100 ? fmt("%zu bytes", s.size()) : mc::show(s); }
static string text_of(const Subrange& r) { return mc::show(r); }
static string text_of(size_t n) { return fmt("%zu", n); }
static string text_of(bool b) { return b ? "true" : "false"; }
static string text_of(int32_t n) { return fmt("%d", n); }
static string text_of(char32_t n) { return fmt("U+%04X", unsigned(n)); }
static string text_of(std::optional<char32_t> n) { return n ? text_of(*n) : "nothing"; }
struct View
{
    const char* p;
    size_t n;
    View(string_view v) : p(v.data()), n(v.size()) {}
    View(const char* p, size_t n) : p(p), n(n) {}
    bool operator==(const View& v) const { return p == v.p && n == v.n; }
};
static string text_of(const View& v) { return fmt("%zu bytes at %p", v.n, v.p); }

static vector<Case> cases(bool T)
{
    vector<Case> r;
    auto add = [&](string name, string head, string fill, string tail, auto f) { r.push_back({name, head, fill, tail, f}); };
    using P = std::pair<Subrange, char32_t>;
    auto z2 = [](char a, string_view b) { return string(1, a) + string(b); };
    // Code points of one byte, so that counts are large too.
    add("count_codepoints", "", "a", "\xC3\xA9", [](Ctx& c, string_view s) { IS(count_codepoints(s), s.size() - 1); });
    add("get_codepoint_pos", "", "a", "\xC3\xA9", [](Ctx& c, string_view s)
    {
        IS(get_codepoint_pos(s, ptrdiff_t(s.size() - 2)), s.size() - 2);
        IS(get_codepoint_pos(s, -ptrdiff_t(s.size() - 1)), size_t(0));
    });
    add("get_codepoint", "", "a", "b\xC3\xA9", [](Ctx& c, string_view s) { IS(get_codepoint(s, ptrdiff_t(s.size() - 2)), P(Subrange(s.size() - 2, 2), U'\u00E9')); });
    add("get_codepoint, negative", "b", "a", "\xC3\xA9", [](Ctx& c, string_view s) { IS(get_codepoint(s, -ptrdiff_t(s.size() - 1)), P(Subrange(0, 1), U'b')); });
    add("get_codepoint_substring", "", "a", "xyz\xC3\xA9", [](Ctx& c, string_view s) { IS(View(get_codepoint_substring(s, ptrdiff_t(s.size() - 4), ptrdiff_t(s.size() - 2))), View(s.data() + s.size() - 4, 2)); });
    add("get_codepoint_substring, negative", "xyz", "a", "\xC3\xA9", [](Ctx& c, string_view s) { IS(View(get_codepoint_substring(s, -ptrdiff_t(s.size() - 2), -1)), View(s.data() + 1, s.size() - 3)); });
    add("count_chars", "", "a", "\xC3\xA9", [](Ctx& c, string_view s) { IS(count_chars(s), s.size() - 1); });
    add("get_char_pos", "", "a", "\xC3\xA9", [](Ctx& c, string_view s) { IS(get_char_pos(s, ptrdiff_t(s.size() - 2)), s.size() - 2); });
    add("get_char_range, negative", "b", "a", "\xC3\xA9", [](Ctx& c, string_view s) { IS(get_char_range(s, -ptrdiff_t(s.size() - 1)), Subrange(0, 1)); });
    add("get_char_substring", "", "a", "xyz\xC3\xA9", [](Ctx& c, string_view s) { IS(View(get_char_substring(s, ptrdiff_t(s.size() - 4), ptrdiff_t(s.size() - 2))), View(s.data() + s.size() - 4, 2)); });
    // Long code points are quicker where only offsets matter.
    add("is_valid_utf8", "", SMILE, SMILE, [](Ctx& c, string_view s) { IS(is_valid_utf8(s), true); });
    add("is_valid_utf8, at the end", "", SMILE, "abc\x80", [](Ctx& c, string_view s) { IS(is_valid_utf8(s), false); });
    add("is_valid_utf8, cut off", "", SMILE, "ab\xE2\x80", [](Ctx& c, string_view s) { IS(is_valid_utf8(s), false); });
    add("contains", "", SMILE, "zz\xC3\xA9", [](Ctx& c, string_view s) { IS(ystring::contains(s, U'\u00E9'), true); });
    add("find_first", "", SMILE, z2('z', "\xC3\xA9x"), [](Ctx& c, string_view s)
    {
        IS(find_first(s, "\xC3\xA9x"), Subrange(s.size() - 3, 3));
        IS(find_first(s, "x", s.size() - 2), Subrange(s.size() - 1, 1));
        IS(bool(find_first(s, "y", s.size() - 2)), false);
    });
    add("find_last", "ab\xC3\xA9", SMILE, SMILE, [](Ctx& c, string_view s)
    {
        IS(find_last(s, "b\xC3\xA9"), Subrange(1, 3));
        IS(find_last(s, SMILE), Subrange(s.size() - 4, 4));
        IS(find_last(s, SMILE, s.size() - 4), Subrange(s.size() - 8, 4));
    });
    add("find_last, a late start", "ab\xC3\xA9", SMILE, "zabz", [](Ctx& c, string_view s) { IS(find_last(s, "ab"), Subrange(s.size() - 3, 2)); });
    add("find_first_of", "", SMILE, z2('z', "\xC3\xA9x"), [](Ctx& c, string_view s)
    {
        IS(find_first_of(s, U"\u00E9"sv), P(Subrange(s.size() - 3, 2), U'\u00E9'));
        IS(find_first_of(s, U"xz"sv, s.size() - 3), P(Subrange(s.size() - 1, 1), U'x'));
    });
    add("find_first_of set", "", SMILE, z2('z', "\xC3\xA9x"), [](Ctx& c, string_view s)
    {
        CodepointSet t;
        t.add_range('w', 'y');
        IS(find_first_of(s, t), P(Subrange(s.size() - 1, 1), U'x'));
    });
    add("find_last_of", "ab\xC3\xA9", SMILE, SMILE, [](Ctx& c, string_view s) { IS(find_last_of(s, U"a\u00E9"sv), P(Subrange(2, 2), U'\u00E9')); });
    add("find_last_of set", "ab\xC3\xA9", SMILE, SMILE, [](Ctx& c, string_view s)
    {
        CodepointSet t;
        t.add_range('a', 'b');
        IS(find_last_of(s, t), P(Subrange(1, 1), U'b'));
    });
    add("find_last_of, late", "ab\xC3\xA9", SMILE, "\xC3\xA9zz", [](Ctx& c, string_view s) { IS(find_last_of(s, U"a\u00E9"sv), P(Subrange(s.size() - 4, 2), U'\u00E9')); });
    add("find_first_where", "", SMILE, z2('z', "\xC3\xA9x"), [](Ctx& c, string_view s) { IS(find_first_where(s, [](char32_t ch) { return ch == 'x'; }, 0), P(Subrange(s.size() - 1, 1), U'x')); });
    add("find_last_where", "zabc", SMILE, SMILE, [](Ctx& c, string_view s) { IS(find_last_where(s, [](char32_t ch) { return ch == 'a'; }, SIZE_MAX), P(Subrange(1, 1), U'a')); });
    add("find_first_newline", "", SMILE, "z\xE2\x80\xA8" "\r\n\nx", [](Ctx& c, string_view s)
    {
        IS(find_first_newline(s), Subrange(s.size() - 7, 3));
        IS(find_first_newline(s, s.size() - 4), Subrange(s.size() - 4, 2));
    });
    add("find_last_newline", "ab\r\n", SMILE, SMILE, [](Ctx& c, string_view s) { IS(find_last_newline(s), Subrange(2, 2)); });
    add("find_last_newline, late", "ab\r\n", SMILE, "ab\r\n", [](Ctx& c, string_view s) { IS(find_last_newline(s), Subrange(s.size() - 2, 2)); });
    add("starts_with and ends_with", "", SMILE, "abcd", [](Ctx& c, string_view s)
    {
        IS(starts_with(s, s), true);
        IS(starts_with(s, s.substr(0, s.size() - 2)), true);
        IS(ends_with(s, s.substr(4)), true);
        IS(ends_with(s, s.substr(0, s.size() - 1)), false);
        IS(starts_with(s, "z"), false);
        IS(ends_with(s, "d"), true);
    });
    add("case-insensitive ends", "xyzw", SMILE, "abcd", [](Ctx& c, string_view s)
    {
        IS(ci::starts_with(s, "XY"), true);
        IS(ci::starts_with("XY", s), false);
        IS(ci::ends_with(s, "BCD"), true);
        IS(ci::ends_with("BCD", s), false);
        IS(ci::equal(s, "xyz"), false);
    });
    add("case-insensitive starts_with", "", SMILE, "abcd", [](Ctx& c, string_view s) { IS(ci::starts_with(s, s.substr(0, s.size() - 1)), true); });
    add("case-insensitive ends_with", "bcde", SMILE, "abcd", [](Ctx& c, string_view s) { IS(ci::ends_with(s, s.substr(1)), true); });
    add("case-insensitive equal", "", SMILE, "abcd", [](Ctx& c, string_view s)
    {
        Big t((s.size() - 2 * PAGE) / TILE, "", SMILE, "abcD");
        IS(ci::equal(s, *t), true);
    });
    add("case-insensitive compare", "", SMILE, "abcd", [](Ctx& c, string_view s)
    {
        Big t((s.size() - 2 * PAGE) / TILE, "", SMILE, "abcE");
        IS(ci::compare(s, *t) < 0, true);
    });
    add("case-insensitive less", "", SMILE, "abcd", [](Ctx& c, string_view s) { IS(ci::less(s.substr(0, s.size() - 1), s), true); });
    add("case-insensitive find_first", "", SMILE, z2('z', "\xC3\xA9x"), [](Ctx& c, string_view s) { IS(ci::find_first(s, "\xC3\x89X"), Subrange(s.size() - 3, 3)); });
    add("case-insensitive find_last", "ab\xC3\xA9", SMILE, SMILE, [](Ctx& c, string_view s) { IS(ci::find_last(s, "B\xC3\x89"), Subrange(1, 3)); });
    add("case-insensitive find_first_of", "", SMILE, z2('z', "\xC3\xA9x"), [](Ctx& c, string_view s) { IS(ci::find_first_of(s, U"X"sv), P(Subrange(s.size() - 1, 1), U'x')); });
    add("case-insensitive find_last_of", "ab\xC3\xA9", SMILE, SMILE, [](Ctx& c, string_view s) { IS(ci::find_last_of(s, U"B"sv), P(Subrange(1, 1), U'b')); });
    auto parts = [](Ctx& c, const vector<string_view>& got, std::initializer_list<View> want, size_t size, const char* what)
    {
        vector<View> g(got.begin(), got.end()), w(want);
        c.call();
        c.state();
        string show_got;
        for (auto& v : g)
            show_got += text_of(v) + "; ";
        MC_OK(c, g == w, "%s on a string of %zu bytes gives %s", what, size, show_got.c_str());
    };
    add("split", "a;b;", SMILE, "y;zz", [=](Ctx& c, string_view s) { parts(c, split(s, ";"sv), {{s.data(), 1}, {s.data() + 2, 1}, {s.data() + 4, s.size() - 7}, {s.data() + s.size() - 2, 2}}, s.size(), "split"); });
    add("split by code points", "a;b,", SMILE, "y;zz", [=](Ctx& c, string_view s) { parts(c, split(s, U",;"sv), {{s.data(), 1}, {s.data() + 2, 1}, {s.data() + 4, s.size() - 7}, {s.data() + s.size() - 2, 2}}, s.size(), "split"); });
    add("split, limited", "", SMILE, "y;zz;zz;", [=](Ctx& c, string_view s) { parts(c, split(s, ";"sv, {1, false}), {{s.data(), s.size() - 7}, {s.data() + s.size() - 6, 6}}, s.size(), "split"); });
    add("split_lines", "a\nb\n", SMILE, "y\nzz", [=](Ctx& c, string_view s) { parts(c, split_lines(s), {{s.data(), 1}, {s.data() + 2, 1}, {s.data() + 4, s.size() - 7}, {s.data() + s.size() - 2, 2}}, s.size(), "split_lines"); });
    add("case-insensitive split", "axbX", SMILE, "yXzz", [=](Ctx& c, string_view s) { parts(c, ci::split(s, "x"sv), {{s.data(), 1}, {s.data() + 2, 1}, {s.data() + 4, s.size() - 7}, {s.data() + s.size() - 2, 2}}, s.size(), "case-insensitive split"); });
    add("TokenIterator", "a;b;", SMILE, "y;zz", [=](Ctx& c, string_view s)
    {
        TokenIterator it(s, [](string_view v) { return find_first(v, ";"); });
        vector<string_view> got;
        while (it.next())
            got.push_back(it.part());
        parts(c, got, {{s.data(), 1}, {s.data() + 2, 1}, {s.data() + 4, s.size() - 7}, {s.data() + s.size() - 2, 2}}, s.size(), "TokenIterator");
    });
    add("trim_start", "", " ", "  x ", [](Ctx& c, string_view s) { IS(View(trim_start(s)), View(s.data() + s.size() - 2, 2)); });
    add("trim_end", " x  ", " ", " ", [](Ctx& c, string_view s) { IS(View(trim_end(s)), View(s.data(), 2)); });
    add("trim", " x  ", " ", " ", [](Ctx& c, string_view s) { IS(View(trim(s)), View(s.data() + 1, 1)); });
    add("trim by list", "x", "x", "y", [](Ctx& c, string_view s) { IS(View(trim(s, U"xz"sv)), View(s.data() + s.size() - 1, 1)); });
    add("trim, little", " ", SMILE + "", "   ", [](Ctx&, string_view) {});
    r.pop_back();
    add("trim both", "    ", SMILE, "    ", [](Ctx& c, string_view s) { IS(View(trim(s)), View(s.data() + 4, s.size() - 8)); });
    // One character of very many code points.
    add("get_next_char_range", "ab", "\xCC\x81", "cd", [](Ctx& c, string_view s) { IS(get_next_char_range(s, 1), Subrange(1, s.size() - 3)); });
    add("get_prev_char_range", "ab", "\xCC\x81", "cd", [](Ctx& c, string_view s) { IS(get_prev_char_range(s, s.size() - 2), Subrange(1, s.size() - 3)); });
    add("count_chars, a long one", "ab", "\xCC\x81", "cd", [](Ctx& c, string_view s) { IS(count_chars(s), size_t(4)); });
    // Far offsets.
    add("far offsets", "", SMILE, "zae\xCC\x81\xC3\xA9z", [](Ctx& c, string_view s)
    {
        size_t n = s.size();
        IS(get_next_char_range(s, n - 6), Subrange(n - 6, 3));
        IS(get_prev_char_range(s, n - 1), Subrange(n - 3, 2));
        IS(get_prev_char_range(s, n - 3), Subrange(n - 6, 3));
        IS(get_codepoint_pos(s, -2), n - 3);
        IS(get_char_pos(s, -3), n - 6);
        IS(get_char_range(s, -3), Subrange(n - 6, 3));
        IS(get_codepoint(s, -3), P(Subrange(n - 5, 2), U'\u0301'));
        IS(View(get_codepoint_substring(s, -3)), View(s.data() + n - 5, 5));
        IS(View(get_char_substring(s, -3, -1)), View(s.data() + n - 6, 5));
        IS(bool(find_first_newline(s, n - 3)), false);
        IS(find_first_of(s, U"e"sv, n - 6), P(Subrange(n - 6, 1), U'e'));
        IS(find_last_of(s, U"a"sv, n - 6), P(Subrange(n - 7, 1), U'a'));
        IS(ci::find_first(s, "Z", n - 6), Subrange(n - 1, 1));
        IS(ci::find_last(s, "A", n - 5), Subrange(n - 7, 1));
        IS(ci::find_first_of(s, U"E"sv, n - 6), P(Subrange(n - 6, 1), U'e'));
        IS(bool(find_first_escapable_char(s, n - 6)), false);
        IS(bool(find_first_escaped_char(s, n - 6)), false);
        auto v = s;
        IS(pop_utf8_codepoint(v), std::optional<char32_t>(U'\U0001F600'));
        IS(View(v), View(s.data() + 4, n - 4));
        IS(pop_last_utf8_codepoint(v), std::optional<char32_t>(U'z'));
        IS(View(v), View(s.data() + 4, n - 5));
        IS(remove_utf8_codepoint(v), true);
        IS(remove_last_utf8_codepoint(v), true);
        IS(View(v), View(s.data() + 8, n - 11));
        IS(unescape_next(v), std::optional<char32_t>(U'\U0001F600'));
        IS(View(v), View(s.data() + 12, n - 15));
    });
    add("find_first_escapable_char", "", "a", "z\"\\q", [](Ctx& c, string_view s)
    {
        IS(find_first_escapable_char(s, 0), Subrange(s.size() - 3, 1));
        IS(has_escapable_chars(s), true);
    });
    add("find_first_escaped_char", "", SMILE, "z\\nq", [](Ctx& c, string_view s)
    {
        IS(find_first_escaped_char(s), Subrange(s.size() - 3, 2));
        IS(has_escaped_chars(s), true);
        IS(find_first_escaped_char(s, s.size() - 3), Subrange(s.size() - 3, 2));
    });
    add("unescape_next, many continued lines", "", "\\\n", "zq", [](Ctx& c, string_view s)
    {
        auto v = s;
        IS(unescape_next(v), std::optional<char32_t>(U'z'));
        IS(View(v), View(s.data() + s.size() - 1, 1));
    });
    // Long patterns, whose replacement makes a short string of a long one.
    add("replace by a long pattern", "zb", "a", "yx", [](Ctx& c, string_view s)
    {
        IS(replace(s, s, "q", -1), string("q"));
        IS(replace(s, s, "q", 1), string("q"));
        IS(replace(s, s.substr(1, s.size() - 2), "q", -3), string("zqx"));
        IS(replace(s, s.substr(1, s.size() - 2), "q"), string("zqx"));
    });
    add("find a long pattern", "zb", "a", "yx", [](Ctx& c, string_view s)
    {
        auto p = s.substr(1, s.size() - 2);
        IS(find_first(s, p), Subrange(1, p.size()));
        IS(find_last(s, p), Subrange(1, p.size()));
        IS(starts_with(s, s.substr(0, s.size() - 1)), true);
        IS(starts_with(s, p), false);
        IS(ends_with(s, s.substr(1)), true);
        IS(ends_with(s, p), false);
    });
    add("split by a long pattern", "zb", "a", "yx", [=](Ctx& c, string_view s) { parts(c, split(s, s.substr(1, s.size() - 2)), {{s.data(), 1}, {s.data() + s.size() - 1, 1}}, s.size(), "split by a long pattern"); });
    add("replace_codepoints, most of them", "zb", "a", "yx", [](Ctx& c, string_view s)
    {
        IS(replace_codepoints(s, 1, -1, "q"), string("zqx"));
        IS(replace_codepoints(s, 1, ptrdiff_t(s.size() - 1), "q"), string("zqx"));
    });
    add("replace_chars, most of them", "zb", "a", "yx", [](Ctx& c, string_view s) { IS(replace_chars(s, 1, ptrdiff_t(s.size() - 1), "q"), string("zqx")); });
    // Runs of continuation bytes, whose lengths a counter of 32 bits takes for 1, 2 and 3.
    for (auto [lead, k] : {std::pair(0xC3, 1), std::pair(0xE1, 2), std::pair(0xF1, 3), std::pair(0xC3, -1)})
    {
        if (!T && k != 1 && k != 3)
            continue;
        add(fmt("a run of continuation bytes after %02X", lead) + (k < 0 ? ", just before 2^32" : ""), "a" + string(1, char(lead)), "\x80", "z", [k = k](Ctx& c, string_view t)
        {
            auto wrap = size_t(1) << (t.size() >> 32 ? 32 : 31);
            auto s = t.substr(0, 2 + wrap + k);
            auto len = size_t(k < 0 ? 2 : k + 1);
            auto v = s;
            bool threw = false;
            c.call();
            try
            {
                (void)pop_last_utf8_codepoint(v);
            }
            catch (const YstringException&)
            {
                threw = true;
            }
            c.state();
            MC_OK(c, threw && v.data() == s.data() && v.size() == s.size(), "pop_last_utf8_codepoint takes a byte and %zu continuation bytes for a code point", s.size() - 2);
            IS(remove_last_utf8_codepoint(v), true);
            IS(View(v), View(s.data(), 1 + len));
            v = s.substr(1 + len);
            IS(remove_utf8_codepoint(v), true);
            IS(View(v), View(s.data() + s.size(), 0));
        });
    }
    add("a run of continuation bytes", "", "\x80", "z", [](Ctx& c, string_view s)
    {
        auto v = s;
        IS(remove_utf8_codepoint(v), true);
        IS(View(v), View(s.data() + s.size() - 1, 1));
        v = s.substr(0, s.size() - 1);
        IS(remove_last_utf8_codepoint(v), true);
        IS(View(v), View(s.data(), 0));
    });
    return r;
}

// Functions whose result is as long as the string.
#define MAKES(expr, want_size, want_head, want_tail)                                                                                \
    do                                                                                                                              \
    {                                                                                                                               \
        c.call();                                                                                                                   \
        c.note(#expr);                                                                                                              \
        auto r_ = (expr);                                                                                                           \
        c.state();                                                                                                                  \
        auto h_ = string_view(want_head), t_ = string_view(want_tail);                                                              \
        MC_OK(c, r_.size() == (want_size), "%s on a string of %zu bytes gives %zu bytes instead of %zu", #expr, s.size(), r_.size(), size_t(want_size)); \
        MC_OK(c, r_.substr(0, h_.size()) == h_ && r_.substr(r_.size() - t_.size()) == t_, "%s on a string of %zu bytes gives other bytes at its ends", #expr, s.size()); \
        for (size_t k_ = PAGE; k_ < r_.size() - PAGE; k_ += 4099)                                                                   \
            MC_OK(c, r_[k_] == s[k_ + s.size() - r_.size()] || r_[k_] == s[k_] || r_[k_] == s[k_ + 1] || r_[k_] == s[k_ + 2] || r_[k_] == s[k_ + 3], "%s on a string of %zu bytes gives other bytes at %zu", #expr, s.size(), k_); \
    } while (0)

static vector<Case> long_results()
{
    vector<Case> r;
    auto add = [&](string name, string head, string fill, string tail, auto f) { r.push_back({name, head, fill, tail, f}); };
    add("to_upper", "ab", "AB", "\xC3\xA9z", [](Ctx& c, string_view s) { MAKES(ystring::to_upper(s), s.size(), "ABAB", "AB\xC3\x89Z"); });
    add("to_lower", "AB", "ab", "\xC3\x89Z", [](Ctx& c, string_view s) { MAKES(ystring::to_lower(s), s.size(), "abab", "ab\xC3\xA9z"); });
    add("to_title", "ab", "cd", " \xC3\xA9z", [](Ctx& c, string_view s) { MAKES(ystring::to_title(s), s.size(), "Abcd", "cd \xC3\x89z"); });
    add("append", "ab", "cd", "z", [](Ctx& c, string_view s) { MAKES(append(s, U'\u00E9'), s.size() + 2, "abcd", "dz\xC3\xA9"); });
    add("replace", "ab", "cd", "z", [](Ctx& c, string_view s) { MAKES(replace(s, "z", "xyz", PTRDIFF_MAX), s.size() + 2, "abcd", "dxyz"); });
    r.back().tail = "zz";
    r.back().run = [](Ctx& c, string_view s) { MAKES(replace(s, "z", "xy", 1), s.size() + 1, "abcd", "dxyz"); };
    add("replace, last", "zb", "cd", "zz", [](Ctx& c, string_view s) { MAKES(replace(s, "z", "xy", -2), s.size() + 2, "zbcd", "dxyxy"); });
    add("insert_codepoints", "ab", "cd", "zz", [](Ctx& c, string_view s) { MAKES(insert_codepoints(s, ptrdiff_t(s.size() - 1), "xy"), s.size() + 2, "abcd", "dzxyz"); });
    add("replace_codepoints", "ab", "cd", "zz", [](Ctx& c, string_view s) { MAKES(replace_codepoints(s, ptrdiff_t(s.size() - 1), ptrdiff_t(s.size()), "xy"), s.size() + 1, "abcd", "dzxy"); });
    add("replace_invalid_utf8", "ab", "cd", "z\x80", [](Ctx& c, string_view s) { MAKES(replace_invalid_utf8(s), s.size() + 2, "abcd", "dz\xEF\xBF\xBD"); });
    add("reverse", "ab", "cd", "yz", [](Ctx& c, string_view s)
    {
        c.call();
        auto t = ystring::reverse(s);
        c.state();
        MC_OK(c, t.size() == s.size() && t.substr(0, 4) == "zydc" && t.substr(t.size() - 4) == "dcba", "reverse on a string of %zu bytes", s.size());
    });
    add("escape_json", "ab", "cd", "y\"", [](Ctx& c, string_view s) { MAKES(escape_json(s), s.size() + 1, "abcd", "dy\\\""); });
    add("unescape", "ab", "cd", "\\n", [](Ctx& c, string_view s) { MAKES(unescape(string(s)), s.size() - 1, "abcd", "cd\n"); });
    add("to_decomposed", "ab", "cd", "\xC3\xA9", [](Ctx& c, string_view s) { MAKES(to_decomposed(s), s.size() + 1, "abcd", "cde\xCC\x81"); });
    add("to_composed", "ab", "cd", "zze\xCC\x81", [](Ctx& c, string_view s) { MAKES(to_composed(s), s.size() - 1, "abcd", "zz\xC3\xA9"); });
    r.back().tail = "ze\xCC\x81";
    r.back().run = [](Ctx& c, string_view s) { MAKES(to_composed(s), s.size() - 1, "abcd", "cdz\xC3\xA9"); };
    add("join", "ab", "cd", "yz", [](Ctx& c, string_view s)
    {
        vector<string_view> v{"x", s, "xy"};
        MAKES(join(v.begin(), v.end(), ";"), s.size() + 5, "x;abcd", "cdyz;xy");
    });
    return r;
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    h.stall = 240;
    using Sized = std::pair<Case, size_t>;
    auto add = [&](const char* name, const char* what, vector<Sized> all, unsigned workers)
    {
        auto v = std::make_shared<vector<Sized>>(std::move(all));
        h.add(name, what, v->size(), [=](Ctx& c, uint64_t i)
        {
            auto& [k, tiles] = (*v)[i];
            c.sample([&] { return k.name + fmt(" on a string of %zu bytes", tiles * TILE + 2 * PAGE); });
            if (c.sampling)
                return;
            Big b(tiles, k.head, k.fill, k.tail);
            double t0 = now();
            k.run(c, *b);
            if (getenv("YS_TIMES"))
                fprintf(stderr, "%6.1f %s\n", now() - t0, k.name.c_str());
            c.outcome(hash(k.name) + tiles);
        }, std::max<uint64_t>(1, v->size() / workers));
    };
    // The repeated part of these strings is one piece of memory, which does not change
    // when what is written is what was read from elsewhere in it.
    for (auto [n, what] : {std::pair(size_t(2049), "more than 2^32"), std::pair(size_t(4098), "more than 2^33")})
    {
        if (!T && n > 2049)
            continue;
        h.add(fmt("in-place-%zu", n / 2049), fmt("unescape in place of %s bytes, with escapes at both ends", what), 2, [n = n](Ctx& c, uint64_t i)
        {
            c.sample([&] { return fmt("unescape in place of %zu bytes", n * TILE + 2 * PAGE); });
            if (c.sampling)
                return;
            string fill = i ? SMILE : "k";
            // What the first escape takes less is a multiple of the repeated part's size.
            Big b(n, i ? "ab\\u00E9" : "\\x41\\tbc", fill, i ? "\\tyz" : "y\\u007Az\\n", true);
            string head = string(i ? "ab\xC3\xA9" : "A\tbc") + fill + fill, tail = fill + (i ? "\tyz" : "yzz\n");
            size_t want = b.size - (i ? 4 + 1 : 4 + 5 + 1);
            c.call();
            auto len = unescape(b.base, b.size);
            c.state();
            MC_OK(c, len == want, "unescape in place of %zu bytes gives %zu bytes instead of %zu", b.size, len, want);
            auto r = string_view(b.base, len);
            MC_OK(c, r.substr(0, head.size()) == head && r.substr(len - tail.size()) == tail, "unescape in place of %zu bytes gives %s ... %s", b.size, show(r.substr(0, head.size())).c_str(),
                  show(r.substr(len - tail.size())).c_str());
            for (size_t k = head.size(); k + tail.size() < len; k += 4099)
                MC_OK(c, r[k] == fill[(k - 4) % fill.size()], "unescape in place of %zu bytes: byte %zu", b.size, k);
            c.outcome(len);
        }, 1);
    }
    const size_t G2 = 1025, G4 = 2049; // 2^31 and 2^32 bytes, and one tile
    auto slow = [](const Case& k) { return k.name.find("case-insens") != string::npos || k.name.find("char_") != string::npos || k.name.find("_chars") != string::npos; };
    vector<Sized> v;
    for (bool s : {true, false})
    {
        for (auto& k : cases(T))
        {
            if (slow(k) == s)
            {
                if (s || T)
                    v.push_back({k, G2});
                if (!s || T)
                    v.push_back({k, G4});
            }
        }
    }
    add("searches", T ? "functions that search, count and compare, on strings of more than 2^31 and of more than 2^32 bytes"
                      : "functions that search and count, on strings of more than 2^32 bytes; functions of characters and case-insensitive ones, of more than 2^31", v, 64);
    v.clear();
    for (auto& k : long_results())
        v.push_back({k, T ? G2 : G4});
    // Two at a time, as each takes up to 8 GB.
    add("long-results", T ? "functions that make a string, of more than 2^31 bytes" : "functions that make a string, of more than 2^32 bytes", v, 2);
    if (!T)
        return;
    v.clear();
    for (auto& k : cases(T))
    {
        if (!slow(k))
            v.push_back({k, 2 * G4});
    }
    add("twice-as-long", "functions that search and count, on strings of more than 2^33 bytes", v, 64);
    v.clear();
    for (auto& k : long_results())
        v.push_back({k, G4});
    add("longer-results", "functions that make a string, of more than 2^32 bytes", v, 1);
}
