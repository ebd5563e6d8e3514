// Every public function on given arguments, for the properties that look at
// how the calls behave rather than at what they return (C25, C29, C30).
#pragma once
#include <sstream>
#include "common.hpp"
#include "Ystring/Ystring.hpp"
#include "Ystring/CodepointPredicates.hpp"
#include "Ystring/Escape.hpp"
#include "Ystring/Unescape.hpp"
#include "Ystring/Normalize.hpp"
#include "Ystring/TokenIterator.hpp"

using namespace mc;
using namespace ystring;
namespace ci = ystring::case_insensitive;

using CharList = std::u32string_view;

#ifndef YS_SINK
static volatile uint64_t g_sink;
#endif

static void use(bool b) { g_sink = g_sink + b; }
static void use(size_t n) { g_sink = g_sink + n; }
static void use(int32_t n) { g_sink = g_sink + n; }
static void use(char32_t n) { g_sink = g_sink + n; }

// Reads every byte.
static void use(string_view s)
{
    uint64_t h = 0;
    for (char ch : s)
        h = h * 31 + uint8_t(ch);
    g_sink = g_sink + h;
}
static void use(const string& s) { use(string_view(s)); }
static void use(const u32string& s)
{
    for (auto ch : s)
        use(ch);
}

struct In
{
    Ctx& c;
    string_view s;

    bool inside(string_view v) const { return v.empty() ? v.data() == nullptr || (v.data() >= s.data() && v.data() <= s.data() + s.size()) : mc::inside(v, s); }

    void check(const char* what, const Subrange& r) const
    {
        bool ok = r ? r.offset < s.size() && r.length <= s.size() - r.offset : r.offset <= s.size() || r.offset == SIZE_MAX;
        MC_OK(c, ok, "%s on %s: range %s", what, show(s).c_str(), show(r).c_str());
        if (r)
            use(s.substr(r.offset, r.length));
    }
    void check(const char* what, const std::pair<Subrange, char32_t>& r) const { check(what, r.first); }
    void check(const char* what, string_view v) const
    {
        // An empty view may also be a default one.
        MC_OK(c, inside(v), "%s on %s: the view lies outside", what, show(s).c_str());
        if (v.size() < 5000)
            use(v);
        else
        {
            for (size_t k = 0; k < v.size(); k += v.size() / 64)
                use(v.substr(k, 1));
            use(v.substr(v.size() - 1));
        }
    }
    void check(const char* what, const vector<string_view>& v) const
    {
        for (auto& p : v)
            check(what, p);
    }
    void check(const char*, const string& r) const { use(r); }
    void check(const char*, const u32string& r) const { use(r); }
    void check(const char*, bool r) const { use(r); }
    void check(const char*, int32_t r) const { use(r); }
    void check(const char* what, size_t r) const
    {
        MC_OK(c, r <= s.size() || r == SIZE_MAX, "%s on %s: %zu", what, show(s).c_str(), r);
    }
};

// Called after every call.
#ifndef YS_AFTER_CALL
#define YS_AFTER_CALL()
#endif

// Calls, and lets only YstringException pass.
#ifndef CALL
#define CALL(in, expr)                                  \
    do                                                  \
    {                                                   \
        (in).c.call();                                  \
        (in).c.note(#expr);                             \
        try                                             \
        {                                               \
            auto&& r_ = (expr);                         \
            (in).check(#expr, r_);                      \
        }                                               \
        catch (const YstringException& e_)              \
        {                                               \
            use(string_view(e_.what()));                \
        }                                               \
        YS_AFTER_CALL();                                \
    } while (0)
#endif

static const CodepointSet& some_set()
{
    // Never destroyed: calls are also made when the program ends (C40).
    static const CodepointSet& s = *new CodepointSet([]
    {
        CodepointSet r;
        r.add_codepoints(U"a\u00E9");
        r.add_range(0x400, 0x410);
        r.add_range(5, 2);
        return r;
    }());
    return s;
}

static void codepoint_args(In in, size_t o)
{
    auto s = in.s;
    CALL(in, find_first_newline(s, o));
    CALL(in, find_last_newline(s, o));
    CALL(in, find_first_of(s, U"a\u00E9"sv, o));
    CALL(in, find_first_of(s, some_set(), o));
    CALL(in, find_last_of(s, U"a\u00E9"sv, o));
    CALL(in, find_last_of(s, some_set(), o));
    CALL(in, find_first_where(s, [](char32_t) { return false; }, o));
    CALL(in, find_last_where(s, [](char32_t) { return false; }, o));
    CALL(in, get_next_char_range(s, o));
    CALL(in, get_prev_char_range(s, o));
    CALL(in, find_first_escapable_char(s, o));
    CALL(in, find_first_escaped_char(s, o));
    CALL(in, ci::find_first_of(s, U"A\u00C9"sv, o));
    CALL(in, ci::find_first_of(s, some_set(), o));
    CALL(in, ci::find_last_of(s, U"A\u00C9"sv, o));
    CALL(in, ci::find_last_of(s, some_set(), o));
}

static void one_string(In in)
{
    auto s = in.s;
    in.c.state();
    CALL(in, append(s, U'\u20AC'));
    CALL(in, ystring::contains(s, U'\u00E9'));
    CALL(in, count_chars(s));
    CALL(in, count_codepoints(s));
    CALL(in, is_valid_utf8(s));
    CALL(in, replace_invalid_utf8(s));
    CALL(in, replace_invalid_utf8(s, U'\U0001F600'));
    CALL(in, replace_invalid_utf8(s, 0x110000));
    {
        string t(s);
        CALL(in, replace_invalid_utf8(t = s));
        CALL(in, append(t = s, 'x'));
        CALL(in, append(t = s, 0xFFFFFFFF));
    }
    CALL(in, ystring::reverse(s));
    CALL(in, split_lines(s));
    CALL(in, split_lines(s, {1, true}));
    CALL(in, split(s, U"a \u00E9"sv));
    CALL(in, split(s, U""sv, IGNORE_EMPTY));
    CALL(in, split(s, ""sv));
    CALL(in, split(s, "a"sv, {0, false}));
    CALL(in, trim(s));
    CALL(in, trim(s, U"a\u00E9\0"sv));
    CALL(in, trim_start(s));
    CALL(in, trim_end(s));
    CALL(in, trim_start(s, U"a"sv));
    CALL(in, trim_end(s, U"a"sv));
    CALL(in, trim_where(s, [](char32_t c) { return c == 'a'; }));
    CALL(in, trim_start_where(s, [](char32_t) { return true; }));
    CALL(in, trim_end_where(s, [](char32_t) { return true; }));
    CALL(in, ystring::to_lower(s));
    CALL(in, ystring::to_upper(s));
    CALL(in, ystring::to_title(s));
    CALL(in, to_composed(s));
    CALL(in, to_decomposed(s));
    CALL(in, to_utf32(s));
    CALL(in, escape_json(s));
    CALL(in, has_escapable_chars(s));
    CALL(in, has_escaped_chars(s));
    CALL(in, unescape(string(s)));
    {
        Exact e(s);
        auto fill = [&] { return s.empty() ? e.data.get() : static_cast<char*>(memcpy(e.data.get(), s.data(), s.size())); };
        CALL(in, unescape(fill(), e.size));
        CALL(in, string(e.data.get(), unescape(fill(), e.size)));
        // Again on what is left, whatever that is.
        string left(e.view());
        CALL(in, unescape(static_cast<char*>(memcpy(e.data.get(), left.data(), left.size())), e.size));
    }
    CALL(in, find_first_newline(s));
    CALL(in, find_last_newline(s));
    CALL(in, find_first_of(s, U"a"sv));
    CALL(in, find_last_of(s, U"a"sv));
    CALL(in, ci::find_last_of(s, U"a"sv));
    CALL(in, find_last_newline(s, s.size() + 1));
    CALL(in, replace_codepoint(s, 'a', U'\u00E9'));
    CALL(in, replace_codepoint(s, U'\u00E9', 'a', -1));
    CALL(in, replace_codepoint(s, 0, 0xFFFFFFFF, -1));
    CALL(in, ci::split(s, U"A\u00C9"sv, {2, true}));
    {
        vector<string_view> none;
        CALL(in, join(none.begin(), none.end(), s));
    }
    for (size_t o = 0; o <= s.size(); o += s.size() > 40 ? s.size() / 9 + 1 : 1)
        codepoint_args(in, o);
    // views that shrink
    auto pump = [&](const char* name, auto f)
    {
        in.c.note(name);
        auto v = s;
        for (size_t k = 0; k <= s.size() + 1; ++k)
        {
            auto before = v;
            in.c.call();
            bool more;
            try
            {
                more = bool(f(v));
                YS_AFTER_CALL();
            }
            catch (const YstringException& ex)
            {
                use(string_view(ex.what()));
                YS_AFTER_CALL();
                break;
            }
            MC_OK(in.c, mc::inside(v, before), "%s on %s: view %s", name, show(before).c_str(), show(v).c_str());
            if (!more)
                break;
            MC_OK(in.c, v.size() < before.size(), "%s on %s does not move", name, show(before).c_str());
        }
        MC_OK(in.c, v.size() <= s.size(), "%s", name);
    };
    pump("remove_utf8_codepoint", [](auto& v) { return remove_utf8_codepoint(v); });
    pump("remove_last_utf8_codepoint", [](auto& v) { return remove_last_utf8_codepoint(v); });
    auto used = [](std::optional<char32_t> r)
    {
        if (r)
            use(*r);
        return r.has_value();
    };
    pump("pop_utf8_codepoint", [&](auto& v) { return used(pop_utf8_codepoint(v)); });
    pump("pop_last_utf8_codepoint", [&](auto& v) { return used(pop_last_utf8_codepoint(v)); });
    pump("unescape_next", [&](auto& v)
    {
        bool b;
        auto r = unescape_next(v, &b);
        use(b);
        return used(r);
    });
    pump("unescape_next without flag", [&](auto& v) { return used(unescape_next(v)); });
    // cursors over raw pointers
    const char *b = s.data(), *e = b + s.size();
    in.c.note("decode_next");
    for (size_t o = 0; o <= s.size(); o += s.size() > 40 ? s.size() / 9 + 1 : 1)
    {
        auto cursor = [&](const char* name, auto f)
        {
            in.c.note(name);
            in.c.call();
            auto p = b + o;
            try
            {
                f(p);
            }
            catch (const YstringException&)
            {
            }
            MC_OK(in.c, p >= b && p <= e, "%s on %s from %zu leaves the string", name, show(s).c_str(), o);
        };
        cursor("decode_next", [&](auto& p) { use(decode_next(p, e)); });
        cursor("decode_prev", [&](auto& p) { use(decode_prev(b, p)); });
        cursor("skip_next", [&](auto& p) { use(skip_next(p, e)); });
        cursor("skip_prev", [&](auto& p) { use(skip_prev(b, p)); });
        char32_t ch;
        cursor("safe_decode_next", [&](auto& p) { use(safe_decode_next(p, e, ch)); });
        cursor("safe_decode_prev", [&](auto& p) { use(safe_decode_prev(b, p, ch)); });
    }
    // token iterators
    auto tokens = [&](const char* name, auto finder)
    {
        in.c.note(name);
        try
        {
            TokenIterator it(s, finder);
            size_t n = 0;
            do
            {
                in.c.call();
                in.check(name, it.part());
                in.check(name, it.token());
                in.check(name, it.remainder());
                use(bool(it));
                MC_OK(in.c, ++n <= s.size() + 3, "%s on %s does not end", name, show(s).c_str());
            }
            while (it.next());
            in.check(name, it.part());
            in.check(name, it.token());
            in.check(name, it.remainder());
            use(it.next());
        }
        catch (const YstringException&)
        {
        }
    };
    tokens("TokenIterator(find_first_newline)", [](string_view v) { return find_first_newline(v); });
    tokens("TokenIterator(find_first a)", [](string_view v) { return find_first(v, "a"); });
    tokens("TokenIterator(find_first_of)", [](string_view v) { return find_first_of(v, U"a\u00E9"sv).first; });
    tokens("TokenIterator(get_next_char_range)", [](string_view v) { return get_next_char_range(v, 0); });
    tokens("TokenIterator(nothing)", [](string_view) { return Subrange(); });
    in.c.outcome(hash(s));
}

static void two_strings(Ctx& c, string_view s, string_view t)
{
    In in{c, s};
    c.state();
    CALL(in, starts_with(s, t));
    CALL(in, ends_with(s, t));
    CALL(in, split(s, t));
    CALL(in, split(s, t, {1, true}));
    CALL(in, ci::compare(s, t));
    CALL(in, ci::equal(s, t));
    CALL(in, ci::less(s, t));
    CALL(in, ci::starts_with(s, t));
    CALL(in, ci::ends_with(s, t));
    CALL(in, ci::split(s, t));
    CALL(in, ci::split(s, t, {1, true}));
    CALL(in, find_last(s, t));
    CALL(in, ci::find_last(s, t));
    for (size_t o = 0; o <= s.size(); o += s.size() > 40 ? s.size() / 9 + 1 : 1)
    {
        CALL(in, find_first(s, t, o));
        CALL(in, find_last(s, t, o));
        CALL(in, ci::find_first(s, t, o));
        CALL(in, ci::find_last(s, t, o));
    }
    for (auto k : {PTRDIFF_MAX, ptrdiff_t(2), ptrdiff_t(1), ptrdiff_t(0), ptrdiff_t(-1), ptrdiff_t(-2), PTRDIFF_MIN})
    {
        CALL(in, replace(s, t, "xyz", k));
        CALL(in, replace(s, t, "", k));
        CALL(in, ci::replace(s, t, "xyz", k));
        CALL(in, ci::replace(s, t, t, k));
    }
    for (auto k : {ptrdiff_t(0), ptrdiff_t(1), ptrdiff_t(2), ptrdiff_t(-1), ptrdiff_t(-3), PTRDIFF_MAX, PTRDIFF_MIN})
    {
        CALL(in, insert_chars(s, k, t));
        CALL(in, insert_codepoints(s, k, t));
        CALL(in, replace_chars(s, k, -1, t));
        CALL(in, replace_codepoints(s, 0, k, t));
    }
    vector<string_view> v{s, t, s};
    CALL(in, join(v.begin(), v.end(), t));
    CALL(in, join(v.begin(), v.begin() + 1, s));
    c.outcome(hash(s) * 3 + hash(t));
}

static const ptrdiff_t INDEX[] = {0, 1, 2, 3, 4, 5, -1, -2, -3, -4, -5, PTRDIFF_MAX, PTRDIFF_MAX - 1, PTRDIFF_MIN, PTRDIFF_MIN + 1};

static void indexed(Ctx& c, string_view s)
{
    In in{c, s};
    c.state();
    for (auto i : INDEX)
    {
        CALL(in, get_char_pos(s, i));
        CALL(in, get_char_range(s, i));
        CALL(in, get_codepoint(s, i));
        CALL(in, get_codepoint_pos(s, i));
        CALL(in, get_char_substring(s, i));
        CALL(in, get_codepoint_substring(s, i));
        CALL(in, insert_char(s, i, U'\u00E9'));
        CALL(in, insert_char(s, i, 0x110000));
        CALL(in, insert_codepoint(s, i, 'x'));
        CALL(in, insert_codepoint(s, i, 0xFFFFFFFF));
        for (auto j : INDEX)
        {
            CALL(in, get_char_substring(s, i, j));
            CALL(in, get_codepoint_substring(s, i, j));
            CALL(in, replace_chars(s, i, j, "-+"));
            CALL(in, replace_codepoints(s, i, j, "-+"));
        }
    }
}

static void codepoint(Ctx& c, char32_t cp)
{
    In in{c, ""};
    c.state();
    CALL(in, get_char_class(cp) != 0);
    CALL(in, is_alpha_numeric(cp) || is_cased_letter(cp) || is_control(cp) || is_format(cp) || is_graphical(cp) || is_hex_digit(cp) || is_letter(cp) || is_lower(cp));
    CALL(in, is_mark(cp) || is_newline(cp) || is_number(cp) || is_punctuation(cp) || is_separator(cp) || is_surrogate(cp) || is_symbol(cp) || is_upper(cp));
    CALL(in, is_visible(cp) || is_whitespace(cp));
    CALL(in, ystring::to_lower(cp) == cp);
    CALL(in, ystring::to_upper(cp) == cp);
    CALL(in, ystring::to_title(cp) == cp);
    CALL(in, case_insensitive_compare(cp, 'a'));
    CALL(in, case_insensitive_compare('a', cp));
    CALL(in, case_insensitive_equal(cp, 'a'));
    CALL(in, case_insensitive_less(cp, 'a'));
    CALL(in, decompose(cp));
    CALL(in, from_utf32(cp));
    u32string l{'a', cp};
    CALL(in, from_utf32(l));
    CALL(in, ystring::contains(CharList(l), cp));
    CALL(in, case_insensitive_contains(CharList(l), cp));
    Exact e("a\xC3\xA9z");
    auto s = e.view();
    In t{c, s};
    CALL(t, ystring::contains(s, cp));
    CALL(t, append(s, cp));
    CALL(t, insert_char(s, 1, cp));
    CALL(t, insert_codepoint(s, -1, cp));
    CALL(t, replace_codepoint(s, cp, 'x'));
    CALL(t, replace_codepoint(s, 'a', cp));
    CALL(t, replace_invalid_utf8("a\xC3", cp));
    CALL(t, trim(s, CharList(l)));
    CALL(t, split(s, CharList(l)));
    CALL(t, find_first_of(s, CharList(l)));
    CALL(t, ci::find_last_of(s, CharList(l)));
}

static void sets(Ctx& c, char32_t a, char32_t b)
{
    In in{c, ""};
    c.state();
    CodepointSet s;
    s.add_range(a, b);
    s.add_codepoint(b + 1);
    s.add_codepoint(b + 2);
    s.add_codepoints(CharList(&a, 1));
    for (int n = 0; n < 2; ++n)
    {
        for (char32_t p : {a, b, char32_t(b + 1), char32_t(0), char32_t('s'), char32_t(0xFFFFFFFF)})
        {
            CALL(in, s.contains(p));
            CALL(in, s.case_insensitive_contains(p));
        }
        std::ostringstream os;
        c.note("operator<<(CodepointSet)");
        try
        {
            os << s;
        }
        catch (const YstringException&)
        {
        }
        use(os.str());
        Exact e("as\xC5\xBF");
        In t{c, e.view()};
        CALL(t, find_first_of(t.s, s));
        CALL(t, ci::find_last_of(t.s, s));
        if (b > a && b - a > 0x10000)
            break;
        s.negated = true;
    }
}

