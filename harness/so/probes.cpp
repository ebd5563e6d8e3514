// Calls of every public function with fixed arguments, built together with the
// library's sources into one shared object. Its writable segment therefore
// holds the library's global state and nothing else: no statics here.
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include "Ystring/Ystring.hpp"
#include "Ystring/CodepointPredicates.hpp"
#include "Ystring/Escape.hpp"
#include "Ystring/Unescape.hpp"
#include "Ystring/Normalize.hpp"
#include "Ystring/TokenIterator.hpp"
#include "probes.h"

using namespace ystring;
namespace ci = ystring::case_insensitive;
using std::string;
using std::string_view;
using CharList = std::u32string_view;
using namespace std::string_view_literals;
using namespace std::string_literals;

namespace
{
    void put(string& o, string_view v)
    {
        o += '"';
        o.append(v.data(), v.size());
        o += '"';
    }
    void put(string& o, const string& v) { put(o, string_view(v)); }
    void put(string& o, bool v) { o += v ? 'T' : 'F'; }
    void put(string& o, size_t v)
    {
        char buf[24];
        int n = 0;
        do
            buf[n++] = char('0' + v % 10);
        while (v /= 10);
        while (n)
            o += buf[--n];
        o += ' ';
    }
    void put(string& o, char32_t v) { put(o, size_t(v)); }
    void put(string& o, int32_t v) { put(o, size_t(v < 0 ? 1 : v > 0 ? 2 : 0)); }
    void put(string& o, CharClass_t v) { put(o, size_t(v)); }
    void put(string& o, const std::u32string& v)
    {
        for (auto c : v)
            put(o, c);
    }
    void put(string& o, const Subrange& v)
    {
        put(o, v.offset);
        put(o, v.length);
    }
    template <typename A, typename B>
    void put(string& o, const std::pair<A, B>& v)
    {
        put(o, v.first);
        put(o, v.second);
    }
    template <typename T>
    void put(string& o, const std::optional<T>& v)
    {
        if (v)
            put(o, *v);
        else
            o += '-';
    }
    template <typename T>
    void put(string& o, const std::vector<T>& v)
    {
        o += '[';
        for (auto& e : v)
            put(o, e);
        o += ']';
    }

    CodepointSet set(bool negated = false)
    {
        CodepointSet s;
        s.add_range('a', 'f');
        s.add_codepoints(U"\u00E9\u0414");
        s.add_codepoint(U'\u20AC');
        s.negated = negated;
        return s;
    }

    constexpr string_view A = "Alpha, \xC3\xA9t\xC3\xA9 \xE2\x82\xAC" "5 \xF0\x9F\x98\x80!";
    constexpr string_view B = "one two\r\nthree\xE2\x80\xA8" "four\n\n";
    constexpr string_view M = "a\xCC\x81" "b\xCC\x88\xCC\x84" "c";
    constexpr string_view C = "\xC4\x8C" "esk\xC3\xBD \xCE\xA3\xCE\xAF\xCF\x83\xCF\x85\xCF\x86\xCE\xBF\xCF\x82 \xC3\x9F\xC7\x84x";
    constexpr string_view D = "\xC4\x8D" "ESK\xC3\x9D \xCF\x83\xCE\x8A\xCE\xA3\xCE\xA5\xCE\xA6\xCE\x9F\xCE\xA3 \xC3\x9F\xC7\x86X";
    constexpr string_view N = "\xE1\xB9\xA9\xC3\x84\xE1\xBE\x82" "A\xCC\x88\xCC\x84 \xE3\x81\x8B\xE3\x82\x99";
    constexpr string_view E = "x\\n\\u20AC\\uD83D\\uDE00\\x41\\101\\\\";
    constexpr string_view J = "q\"b\\c\n\x01\xC3\xA9\x1F";
    constexpr string_view BAD = "ab\xC3\xC3\xA9\xE2\x82" "c\x80";
    constexpr string_view LONG = "The quick brown fox jumps over the lazy dog, and \xC3\xA6\xC3\xB8\xC3\xA5 \xC3\x86\xC3\x98\xC3\x85 come after it; the end of the line.";
}

#define P(expr) {#expr, [](string& o) { put(o, (expr)); }}
// With statements that fill o.
#define Q(name, ...) {name, [](string& o) { __VA_ARGS__ }}

struct Entry
{
    const char* name;
    void (*run)(string&);
};

static constexpr Entry ENTRIES[] = {
    P(append(A, U'\u20AC')),
    P(append(A, U'x')),
    P(append(A, 0x110000)),
    Q("append(string&)", string s(A); put(o, append(s, U'\U0001F600')); put(o, s);),
    P(ystring::contains(A, U'\u20AC')),
    P(ystring::contains(A, U'z')),
    P(ystring::contains(BAD, U'z')),
    P(count_chars(M)),
    P(count_chars(A)),
    P(count_codepoints(A)),
    P(count_codepoints(BAD)),
    P(ystring::ends_with(A, "!")),
    P(ystring::starts_with(A, "Alpha, \xC3")),
    P(find_first(A, " ", 8)),
    P(find_first(LONG, "the")),
    P(find_first(LONG, "the", 40)),
    P(find_last(LONG, "the")),
    P(find_last(LONG, "the", 40)),
    P(find_first_newline(B)),
    P(find_first_newline(B, 9)),
    P(find_last_newline(B)),
    P(find_last_newline(B, 9)),
    P(find_first_of(A, U"\u20AC\u00E9"sv)),
    P(find_first_of(A, U"\u20AC"sv, 12)),
    P(find_first_of(BAD, U"z"sv)),
    P(find_first_of(A, set())),
    P(find_last_of(A, U"\u20AC\u00E9"sv)),
    P(find_last_of(A, set(), 8)),
    P(find_last_of(A, set(true))),
    P(find_first_where(A, [](char32_t c) { return c > 0xFF; })),
    P(find_last_where(A, [](char32_t c) { return c == ','; })),
    P(get_char_pos(M, 1)),
    P(get_char_pos(M, -1)),
    P(get_char_range(M, 1)),
    P(get_char_range(A, -2)),
    P(get_char_substring(M, 1, 2)),
    P(get_char_substring(LONG, -20, -3)),
    P(get_codepoint(A, 7)),
    P(get_codepoint(A, -2)),
    P(get_codepoint_pos(A, 9)),
    P(get_codepoint_pos(LONG, -30)),
    P(get_codepoint_substring(A, 2, -2)),
    P(get_codepoint_substring(LONG, 30)),
    P(get_next_char_range(M, 3)),
    P(get_prev_char_range(M, 8)),
    P(insert_chars(M, 1, "<>")),
    P(insert_char(M, -1, U'\u00E9')),
    P(insert_char(M, 17, U'\u00E9')),
    P(insert_codepoint(A, 8, U'*')),
    P(insert_codepoints(A, -3, "\xE2\x82\xAC")),
    P(is_valid_utf8(A)),
    P(is_valid_utf8(BAD)),
    Q("join", std::vector<string_view> v{A, "", B}; put(o, join(v.begin(), v.end(), "-")); put(o, join(v.begin(), v.begin() + 1, "-"));),
    P(replace(LONG, "the", "THE")),
    P(replace(LONG, "o", "00", -2)),
    P(replace_chars(M, 1, 2, "X")),
    P(replace_codepoints(A, 2, -2, "\xC3\x86")),
    P(replace_codepoint(LONG, ' ', U'\u00B7')),
    P(replace_codepoint(A, U'\u00E9', 'e', -1)),
    P(replace_invalid_utf8(BAD)),
    P(replace_invalid_utf8(BAD, '?')),
    Q("replace_invalid_utf8(string&)", string s(BAD); put(o, replace_invalid_utf8(s)); put(o, s);),
    P(ystring::reverse(M)),
    P(ystring::reverse(LONG)),
    P(split(LONG, U" ,"sv)),
    P(split(A, U"\u00E9"sv, {1, false})),
    P(split(LONG, "the", IGNORE_EMPTY)),
    P(split_lines(B)),
    P(split_lines(B, IGNORE_EMPTY)),
    P(split_where(A, [](auto s) { return find_first(s, " "); })),
    P(trim("  \tab \n")),
    P(trim_start(A, U"Alp"sv)),
    P(trim_end(A, U"!\U0001F600"sv)),
    P(trim_where(A, [](char32_t c) { return is_letter(c); })),
    P(trim_start_where(A, [](char32_t c) { return is_letter(c); })),
    P(trim_end_where(A, [](char32_t c) { return !is_letter(c); })),
    P(ci::compare(C, D)),
    P(ci::compare("abc", "ABD")),
    P(ci::equal(C, D)),
    P(ci::less("aB", "Ac")),
    P(ci::ends_with(C, "\xCE\x9F\xCF\x82 \xC3\x9F\xC7\x85X")),
    P(ci::starts_with(C, "\xC4\x8D" "Esk")),
    P(ci::find_first(C, "SK")),
    P(ci::find_first(LONG, "\xC3\x86\xC3\x98", 50)),
    P(ci::find_last(C, "\xCF\x83")),
    P(ci::find_first_of(C, U"K\u03C6"sv)),
    P(ci::find_first_of(C, set())),
    P(ci::find_last_of(C, U"\u03C3"sv)),
    P(ci::find_last_of(C, set())),
    P(ci::replace(LONG, "THE", "a")),
    P(ci::replace(C, "\xCF\x83", "s", -1)),
    P(ci::split(LONG, U"O\u00C6"sv)),
    P(ci::split(LONG, "THE")),
    P(to_lower(C)),
    P(to_upper(C)),
    P(to_title(C)),
    P(to_lower(LONG)),
    P(to_upper(LONG)),
    P(to_title(LONG)),
    P(to_upper(BAD)),
    P(to_title(BAD)),
    P(to_lower(U'\u0414')),
    P(to_upper(U'\u0434')),
    P(to_title(U'\u01C4')),
    P(get_char_class(U'\u0414')),
    P(get_char_class(U'\U0001F600')),
    P(get_char_class(U'\u3400')),
    P(is_alpha_numeric('7')),
    P(is_cased_letter(U'\u01C5')),
    P(is_control(7)),
    P(is_format(U'\u200B')),
    P(is_graphical(U'\u20AC')),
    P(is_hex_digit('f')),
    P(is_letter(U'\u4E2D')),
    P(is_lower(U'\u00E9')),
    P(is_mark(U'\u0301')),
    P(is_newline(U'\u2028')),
    P(is_number(U'\u0660')),
    P(is_punctuation('!')),
    P(is_separator(U'\u3000')),
    P(is_surrogate(0xD800)),
    P(is_symbol('+')),
    P(is_upper(U'\u00C9')),
    P(is_visible(U'\u00A0')),
    P(is_whitespace('\n')),
    P(case_insensitive_compare('a', 'B')),
    P(case_insensitive_equal(U'\u03C2', U'\u03A3')),
    P(case_insensitive_less('B', 'a')),
    P(set().contains('c')),
    P(set(true).contains(U'\u0414')),
    P(set().case_insensitive_contains(U'\u0434')),
    P(ystring::contains(U"ab\u20AC"sv, U'\u20AC')),
    P(case_insensitive_contains(U"ab\u20AC"sv, 'B')),
    P(decompose(U'\u1F82')),
    P(decompose(U'\u00C4')),
    P(decompose('x')),
    P(to_composed(N)),
    P(to_composed(M)),
    P(to_composed(BAD)),
    P(to_decomposed(N)),
    P(to_decomposed(LONG)),
    P(to_decomposed(BAD)),
    P(from_utf32(U'\u20AC')),
    P(from_utf32(U"a\u00E9\u20AC\U0001F600"sv)),
    P(to_utf32(A)),
    P(to_utf32(BAD)),
    P(escape_json(J)),
    P(escape_json(A)),
    P(has_escapable_chars(J)),
    P(find_first_escapable_char(J, 2)),
    P(unescape(string(E))),
    P(unescape(string("a\\U0010FFFFb\\t"))),
    P(unescape(string("bad \\u12"))),
    Q("unescape(char*)", string s(E); auto n = unescape(s.data(), s.size()); put(o, n); put(o, s.substr(0, n));),
    P(has_escaped_chars(E)),
    P(find_first_escaped_char(E, 3)),
    Q("unescape_next", string_view v = E; bool b; while (auto c = unescape_next(v, &b)) { put(o, *c); put(o, b); }),
    Q("unescape_next with error", string_view v = "a\\\n\\u12"; put(o, unescape_next(v)); put(o, unescape_next(v));),
    Q("decode forwards", auto it = A.begin(); char32_t c; while (safe_decode_next(it, A.end(), c)) put(o, c);),
    Q("decode backwards", auto it = A.end(); char32_t c; while (safe_decode_prev(A.begin(), it, c)) put(o, c);),
    Q("decode with error", auto it = BAD.begin(); char32_t c; while (safe_decode_next(it, BAD.end(), c)) put(o, c);),
    Q("skip", auto it = BAD.begin(); while (skip_next(it, BAD.end())) put(o, size_t(it - BAD.begin())); while (skip_prev(BAD.begin(), it)) put(o, size_t(it - BAD.begin()));),
    Q("pop", string_view v = A; put(o, pop_utf8_codepoint(v)); put(o, pop_last_utf8_codepoint(v)); put(o, remove_utf8_codepoint(v)); put(o, remove_last_utf8_codepoint(v)); put(o, v);),
    Q("TokenIterator", TokenIterator it(LONG, [](string_view s) { return find_first(s, " "); }); while (it.next()) { put(o, it.part()); put(o, it.token()); put(o, it.remainder()); }),
    Q("operator<<", std::ostringstream s; s << set() << Subrange(3, 4); put(o, s.str());),
};

// Functions of one string.
#define S(expr) {#expr, [](string& o, string_view s) { put(o, (expr)); }}

struct TextEntry
{
    const char* name;
    void (*run)(string&, string_view);
};

static constexpr TextEntry TEXTS[] = {
    S(count_chars(s)),
    S(count_codepoints(s)),
    S(is_valid_utf8(s)),
    S(find_first(s, "a")),
    S(find_last(s, "a")),
    S(find_first_newline(s)),
    S(find_last_newline(s)),
    S(find_first_of(s, U"b\u00E9"sv)),
    S(find_last_of(s, U"b\u00E9"sv)),
    S(find_first_of(s, set())),
    S(ystring::contains(s, U'\u00E9')),
    S(ystring::starts_with(s, "a")),
    S(ystring::ends_with(s, "a")),
    S(get_char_pos(s, 2)),
    S(get_char_pos(s, -2)),
    S(get_char_range(s, -1)),
    S(get_codepoint(s, 2)),
    S(get_codepoint(s, -2)),
    S(get_codepoint_pos(s, 3)),
    S(get_codepoint_pos(s, -3)),
    S(get_char_substring(s, 1, -1)),
    S(get_codepoint_substring(s, 1, -1)),
    S(get_next_char_range(s, 0)),
    S(get_prev_char_range(s, s.size())),
    S(insert_char(s, 2, 'x')),
    S(insert_codepoints(s, -1, "xy")),
    S(replace_chars(s, 1, 2, "z")),
    S(replace_codepoints(s, -2, -1, "z")),
    S(replace(s, "a", "bb")),
    S(replace(s, "a", "bb", -1)),
    S(replace_codepoint(s, U'\u00E9', 'e')),
    S(replace_invalid_utf8(s)),
    S(ystring::reverse(s)),
    S(split(s, U"a"sv)),
    S(split(s, "b")),
    S(split_lines(s)),
    S(trim(s)),
    S(trim_start(s, U"a"sv)),
    S(trim_end(s, U"a\u00E9"sv)),
    S(to_lower(s)),
    S(to_upper(s)),
    S(to_title(s)),
    S(to_composed(s)),
    S(to_decomposed(s)),
    S(to_utf32(s)),
    S(escape_json(s)),
    S(has_escapable_chars(s)),
    S(find_first_escapable_char(s)),
    S(unescape(string(s))),
    S(has_escaped_chars(s)),
    S(ci::compare(s, "Ab")),
    S(ci::equal(s, "AB")),
    S(ci::less(s, "B")),
    S(ci::find_first(s, "B")),
    S(ci::find_last(s, "B")),
    S(ci::find_first_of(s, U"B"sv)),
    S(ci::find_last_of(s, set())),
    S(ci::starts_with(s, "A")),
    S(ci::ends_with(s, "A")),
    S(ci::replace(s, "B", "xx")),
    S(ci::split(s, "A")),
    S(append(s, U'\u00E9')),
    S(find_first(LONG, s)),
    S(find_last(LONG, s)),
    S(ystring::starts_with(LONG, s)),
    S(ystring::ends_with(LONG, s)),
    S(split(LONG, s)),
    S(replace(LONG, s, "-")),
    S(replace(LONG, "o", s)),
    S(insert_codepoints(LONG, 3, s)),
    S(ystring::join(&A, &A + 1, s)),
    S(ci::find_first(LONG, s)),
    S(ci::find_last(LONG, s)),
    S(ci::compare(LONG, s)),
    S(ci::equal(s, s)),
    S(ci::starts_with(LONG, s)),
    S(ci::ends_with(LONG, s)),
    S(ci::split(LONG, s)),
    S(ci::replace(LONG, s, "-")),
};

// Sets and lists of code points that change where they are.
struct Object
{
    CodepointSet set;
    char32_t chars[16] = {};
    size_t size = 0;

    CharList list() const { return {chars, size}; }
};

static constexpr struct
{
    CharList list;
    char32_t last;
    bool negated;
} CONTENTS[] = {
    {U"", 0, false}, {U"", 0, true}, {U"a", 'a', false}, {U"b", 'b', false}, {U"b", 'b', true}, {U"B", 'B', false},
    {U"ab", 'b', false}, {U"ac", 'c', false}, {U"ac", 'z', false}, {U"ac", 'z', true}, {U"\u00E9", 0xE9, false},
    {U"\u00C9", 0xC9, false}, {U"oO", 'O', false}, {U"Oo", 'o', false}, {U" \u00E6q", 0x200, false},
    {U"abcdef", 'f', false}, {U"abcdeg", 'g', false}, {U"ABCDEF", 'F', true}, {U"\u03C3", 0x3C3, false}, {U"\u03C2", 0x3C2, false},
};

#define O(expr) {#expr, [](string& o, const Object& x) { put(o, (expr)); }}

struct ObjectEntry
{
    const char* name;
    void (*run)(string&, const Object&);
};

static string members(const Object& x, bool (*f)(const Object&, char32_t))
{
    string r;
    for (auto cp : U"aAbBcCdefgozqOQ \u00E9\u00C9\u00E6\u03C2\u03C3\u03A3\u20AC"sv)
        r += f(x, cp) ? 'T' : 'F';
    return r;
}

static constexpr ObjectEntry OBJECTS[] = {
    O(members(x, [](const Object& x, char32_t c) { return x.set.contains(c); })),
    O(members(x, [](const Object& x, char32_t c) { return x.set.case_insensitive_contains(c); })),
    O(members(x, [](const Object& x, char32_t c) { return ystring::contains(x.list(), c); })),
    O(members(x, [](const Object& x, char32_t c) { return ystring::case_insensitive_contains(x.list(), c); })),
    {"operator<<(stream, set)", [](string& o, const Object& x)
    {
        std::ostringstream s;
        s << x.set;
        o = s.str();
    }},
    O(find_first_of(LONG, x.set)),
    O(find_last_of(LONG, x.set)),
    O(find_first_of(LONG, x.list())),
    O(find_last_of(LONG, x.list())),
    O(ci::find_first_of(LONG, x.set)),
    O(ci::find_last_of(LONG, x.set)),
    O(ci::find_first_of(LONG, x.list())),
    O(ci::find_last_of(LONG, x.list())),
    O(split(LONG, x.list())),
    O(trim(B, x.list())),
    O(trim_start("abcOo \xC3\xA9 oOcba", x.list())),
    O(trim_end("abcOo \xC3\xA9 oOcba", x.list())),
    O(from_utf32(x.list())),
};

template <typename F>
static void guarded(string& o, F f)
{
    try
    {
        f();
    }
    catch (const YstringException& e)
    {
        o += "YstringException";
    }
    catch (const std::exception& e)
    {
        o += "std::exception ";
        o += e.what();
    }
}

extern "C"
{
    size_t ys_probe_count() { return std::size(ENTRIES); }
    const char* ys_probe_name(size_t i) { return ENTRIES[i].name; }

    void ys_probe_run(size_t i, std::string* out)
    {
        out->clear();
        guarded(*out, [&] { ENTRIES[i].run(*out); });
    }

    size_t ys_text_count() { return std::size(TEXTS); }
    const char* ys_text_name(size_t i) { return TEXTS[i].name; }

    void ys_text_run(size_t i, const char* data, size_t size, std::string* out)
    {
        out->clear();
        guarded(*out, [&] { TEXTS[i].run(*out, string_view(data, size)); });
    }

    void* ys_object_new()
    {
        auto x = new Object;
        x->set.ranges.reserve(16);
        return x;
    }
    size_t ys_object_contents() { return std::size(CONTENTS); }
    void ys_object_fill(void* object, size_t content)
    {
        auto& x = *static_cast<Object*>(object);
        auto& c = CONTENTS[content];
        x.set.ranges.clear();
        for (auto cp : c.list)
            x.set.ranges.emplace_back(cp, cp == c.list.back() ? std::max(cp, c.last) : cp);
        x.set.negated = c.negated;
        std::copy(c.list.begin(), c.list.end(), x.chars);
        x.size = c.list.size();
    }
    size_t ys_object_count() { return std::size(OBJECTS); }
    const char* ys_object_name(size_t i) { return OBJECTS[i].name; }
    void ys_object_run(size_t i, const void* object, std::string* out)
    {
        out->clear();
        guarded(*out, [&] { OBJECTS[i].run(*out, *static_cast<const Object*>(object)); });
    }

    uint32_t ys_codepoint(size_t f, char32_t cp)
    {
        switch (f)
        {
        case 0: return get_char_class(cp);
        case 1: return to_lower(cp);
        case 2: return to_upper(cp);
        case 3: return to_title(cp);
        case 4:
        {
            uint32_t h = 0;
            for (auto c : decompose(cp))
                h = h * 31 + c;
            return h;
        }
        case 5: return is_letter(cp) | is_mark(cp) << 1 | is_visible(cp) << 2 | is_whitespace(cp) << 3;
        default:
        {
            uint32_t h = 0;
            for (auto c : from_utf32(cp))
                h = h * 31 + uint8_t(c);
            return h;
        }
        }
    }
}
