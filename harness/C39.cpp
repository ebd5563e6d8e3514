// C39: malformed text is rejected where it is met. The model reads a text one code point
// at a time, forward or backward, exactly as far as the answer needs, and fails at
// the first malformed stretch it meets. Where the answer is known before the
// stretch next to it, but looking at it is natural, both outcomes are accepted:
// the model takes a choice, and all its choices are enumerated.
#include "common.hpp"
#include <set>
#include "Ystring/Algorithms.hpp"
#include "Ystring/ConvertCase.hpp"
#include "Ystring/Normalize.hpp"
#include "Ystring/Utf32.hpp"

using namespace mc;
using namespace ystring;

namespace
{
    struct Malformed {};

    struct Choices
    {
        vector<bool> script;
        size_t at = 0;

        void maybe_fail()
        {
            if (at == script.size())
                script.push_back(false);
            if (script[at++])
                throw Malformed();
        }

        bool next()
        {
            at = 0;
            while (!script.empty() && script.back())
                script.pop_back();
            if (script.empty())
                return false;
            script.back() = true;
            return true;
        }
    };

    struct Cp
    {
        char32_t cp;
        size_t to;
        bool ok;
    };

    // The code point that starts or ends at i.
    Cp peek_next(string_view s, size_t i)
    {
        int n = ref::need((unsigned char)s[i]);
        if (n < 0 || s.size() - i < size_t(n) + 1)
            return {0, i, false};
        static const unsigned char mask[4] = {0x7F, 0x1F, 0x0F, 0x07};
        char32_t cp = (unsigned char)s[i] & mask[n];
        for (int k = 1; k <= n; ++k)
        {
            auto b = (unsigned char)s[i + k];
            if (!ref::is_cont(b))
                return {0, i, false};
            cp = cp * 64 + (b - 0x80);
        }
        return {cp, i + n + 1, true};
    }

    Cp peek_prev(string_view s, size_t i)
    {
        for (size_t n = 1; n <= 4 && n <= i; ++n)
        {
            auto r = peek_next(s.substr(0, i), i - n);
            if (r.ok && r.to == i)
                return {r.cp, i - n, true};
            if (!ref::is_cont((unsigned char)s[i - n]))
                break;
        }
        return {0, i, false};
    }

    Cp must(Cp r)
    {
        if (!r.ok)
            throw Malformed();
        return r;
    }

    Cp read_next(string_view s, size_t i) { return must(peek_next(s, i)); }
    Cp read_prev(string_view s, size_t i) { return must(peek_prev(s, i)); }

    struct Range
    {
        size_t b = 0, e = 0;
        char32_t cp = 0;
        explicit operator bool() const { return b != e; }
    };

    string range(const Range& r) { return r ? fmt("[%zu, %zu)", r.b, r.e) : "nothing"s; }
    string range(const Subrange& r) { return r ? fmt("[%zu, %zu)", r.start(), r.end()) : "nothing"s; }
    string found(const Range& r) { return range(r) + (r ? " " + show(r.cp) : ""s); }
    string found(const std::pair<Subrange, char32_t>& r) { return range(r.first) + (r.first ? " " + show(r.second) : ""s); }

    string view(string_view s, string_view v)
    {
        if (v.empty())
            return "nothing";
        if (!mc::inside(v, s))
            return "a view of something else";
        size_t b = size_t(v.data() - s.data());
        return fmt("[%zu, %zu)", b, b + v.size());
    }

    string views(string_view s, const vector<string_view>& v)
    {
        string r;
        for (auto& x : v)
            r += view(s, x) + ";";
        return r;
    }

    template <typename P>
    Range first_where(string_view s, const P& p, size_t i)
    {
        while (i < s.size())
        {
            auto r = read_next(s, i);
            if (p(r.cp))
                return {i, r.to, r.cp};
            i = r.to;
        }
        return {};
    }

    template <typename P>
    Range last_where(string_view s, const P& p, size_t i)
    {
        i = std::min(i, s.size());
        while (i > 0)
        {
            auto r = read_prev(s, i);
            if (p(r.cp))
                return {r.to, i, r.cp};
            i = r.to;
        }
        return {};
    }

    bool newline(char32_t c) { return (c >= 10 && c <= 13) || c == 0x85 || c == 0x2028 || c == 0x2029; }

    Range first_newline(string_view s, size_t i, Choices& ch)
    {
        auto r = first_where(s, newline, i);
        if (r && r.cp == '\r' && r.e < s.size())
        {
            auto n = peek_next(s, r.e);
            if (!n.ok)
                ch.maybe_fail();
            else if (n.cp == '\n')
                return {r.b, n.to, r.cp};
        }
        return r;
    }

    Range last_newline(string_view s, size_t i, Choices& ch)
    {
        auto r = last_where(s, newline, i);
        if (r && r.cp == '\n' && r.b > 0)
        {
            auto n = peek_prev(s, r.b);
            if (!n.ok)
                ch.maybe_fail();
            else if (n.cp == '\r')
                return {n.to, r.e, r.cp};
        }
        return r;
    }

    template <typename F>
    string split_model(string_view s, const F& find, SplitParams p)
    {
        string r;
        size_t n = 0, pos = 0;
        auto push = [&](size_t b, size_t e)
        {
            if (p.ignore_empty && b == e)
                return;
            r += range(Range{b, e}) + ";";
            ++n;
        };
        while (n < p.max_splits)
        {
            auto m = find(s.substr(pos));
            if (!m)
            {
                push(pos, s.size());
                return r;
            }
            push(pos, pos + m.b);
            pos += m.e;
        }
        push(pos, s.size());
        return r;
    }

    // Characters.
    Range next_char(string_view s, size_t i)
    {
        if (i == s.size())
            return {};
        size_t e = read_next(s, i).to;
        while (e < s.size())
        {
            auto r = read_next(s, e);
            if (!ref::is_mark(r.cp))
                break;
            e = r.to;
        }
        return {i, e};
    }

    Range prev_char(string_view s, size_t i)
    {
        size_t b = i;
        while (b > 0)
        {
            auto r = read_prev(s, b);
            b = r.to;
            if (!ref::is_mark(r.cp))
                break;
        }
        return {b, i};
    }

    size_t char_pos(string_view s, ptrdiff_t n)
    {
        size_t at = n >= 0 ? 0 : s.size();
        for (; n > 0; --n)
        {
            auto r = next_char(s, at);
            if (!r)
                return SIZE_MAX;
            at = r.e;
        }
        for (; n < 0; ++n)
        {
            auto r = prev_char(s, at);
            if (!r)
                return SIZE_MAX;
            at = r.b;
        }
        return at;
    }

    size_t char_pos_capped(string_view s, ptrdiff_t n)
    {
        auto p = char_pos(s, n);
        return p != SIZE_MAX ? p : n > 0 ? s.size() : 0;
    }

    Range char_slice(string_view s, ptrdiff_t a, ptrdiff_t b)
    {
        if ((a >= 0) == (b >= 0) && b <= a)
        {
            auto p = char_pos_capped(s, a);
            return {p, p};
        }
        size_t f = char_pos_capped(s, a), l = char_pos_capped(s, b);
        return {f, std::max(f, l)};
    }

    // Ignoring case.
    bool same(char32_t a, char32_t b) { return ref::upper(a) == ref::upper(b); }

    int ci_compare(string_view s, string_view t, Choices& ch)
    {
        size_t i = 0, j = 0;
        while (i < s.size() && j < t.size())
        {
            auto a = read_next(s, i), b = read_next(t, j);
            auto x = ref::upper(a.cp), y = ref::upper(b.cp);
            if (x != y)
                return x < y ? -1 : 1;
            i = a.to;
            j = b.to;
        }
        if (i < s.size() ? !peek_next(s, i).ok : j < t.size() && !peek_next(t, j).ok)
            ch.maybe_fail();
        return i < s.size() ? 1 : j < t.size() ? -1 : 0;
    }

    // Whether t is found at i; its other end.
    std::optional<size_t> ci_at(string_view s, size_t i, string_view t, Choices& ch)
    {
        size_t j = 0;
        while (j < t.size())
        {
            if (i == s.size())
            {
                if (!peek_next(t, j).ok)
                    ch.maybe_fail();
                return {};
            }
            auto a = read_next(s, i), b = read_next(t, j);
            if (!same(a.cp, b.cp))
                return {};
            i = a.to;
            j = b.to;
        }
        if (i < s.size() && !peek_next(s, i).ok)
            ch.maybe_fail();
        return i;
    }

    std::optional<size_t> ci_back(string_view s, size_t i, string_view t, Choices& ch)
    {
        size_t j = t.size();
        while (j > 0)
        {
            if (i == 0)
            {
                if (!peek_prev(t, j).ok)
                    ch.maybe_fail();
                return {};
            }
            auto a = read_prev(s, i), b = read_prev(t, j);
            if (!same(a.cp, b.cp))
                return {};
            i = a.to;
            j = b.to;
        }
        if (i > 0 && !peek_prev(s, i).ok)
            ch.maybe_fail();
        return i;
    }

    Range ci_first(string_view s, string_view t, size_t i, Choices& ch)
    {
        if (t.empty())
            return {};
        if (!peek_next(t, 0).ok && i == s.size())
            ch.maybe_fail();
        while (i < s.size())
        {
            if (auto e = ci_at(s, i, t, ch))
                return {i, *e};
            i = read_next(s, i).to;
        }
        return {};
    }

    Range ci_last(string_view s, string_view t, size_t i, Choices& ch)
    {
        if (t.empty())
            return {};
        i = std::min(i, s.size());
        if (!peek_prev(t, t.size()).ok && i == 0)
            ch.maybe_fail();
        while (i > 0)
        {
            if (auto b = ci_back(s, i, t, ch))
                return {*b, i};
            i = read_prev(s, i).to;
        }
        return {};
    }

    string ci_replace(string_view s, string_view from, string_view to, ptrdiff_t n, Choices& ch)
    {
        string r;
        if (n >= 0)
        {
            for (; n > 0; --n)
            {
                auto m = ci_first(s, from, 0, ch);
                if (!m)
                    break;
                r += string(s.substr(0, m.b)) + string(to);
                s = s.substr(m.e);
            }
            return r + string(s);
        }
        string tail;
        for (; n < 0; ++n)
        {
            auto m = ci_last(s, from, SIZE_MAX, ch);
            if (!m)
                break;
            tail = string(to) + string(s.substr(m.e)) + tail;
            s = s.substr(0, m.b);
        }
        return string(s) + tail;
    }

    constexpr const char* FAILS = "YstringException";

    template <typename Real, typename Model, typename Args>
    void check(Ctx& c, const char* name, string_view s, const Args& args, Real real, Model model)
    {
        string got;
        c.call();
        try
        {
            got = real();
        }
        catch (const YstringException&)
        {
            got = FAILS;
        }
        Choices ch;
        string want;
        uint64_t n = 0;
        do
        {
            string w;
            try
            {
                w = model(ch);
            }
            catch (const Malformed&)
            {
                w = FAILS;
            }
            if (w == got)
            {
                c.outcome(hash(w) + hash(name));
                return;
            }
            want += (n++ ? " or " : "") + w;
        } while (ch.next());
        c.fail(fmt("%s(%s%s): got %s, expected %s", name, show(s).c_str(), args().c_str(), got.c_str(), want.c_str()));
    }

    template <typename Real, typename Model>
    void check(Ctx& c, const char* name, string_view s, Real real, Model model)
    {
        check(c, name, s, [] { return ""s; }, real, model);
    }

    // Functions that read everything fail exactly if anything is malformed; functions
    // that do not interpret code points never fail.
    void whole(Ctx& c, string_view s)
    {
        auto g = ref::segment(s);
        bool valid = true, encodable = true;
        for (auto& x : g)
        {
            valid = valid && x.ok;
            encodable = encodable && x.cp <= ref::MAXCP;
        }
        auto reads = [&](const char* name, auto f, bool always = false)
        {
            c.call();
            bool threw = false;
            try
            {
                f();
            }
            catch (const YstringException&)
            {
                threw = true;
            }
            if (!always && valid && !encodable)
                return;
            if (threw != (!valid && !always))
                c.fail(fmt("%s(%s): %s", name, show(s).c_str(), threw ? "unexpected YstringException" : "no YstringException"));
        };
        c.outcome(valid);
        auto use = [](const auto& x) { volatile size_t n = x.size(); (void)n; };
        reads("to_upper", [&] { use(to_upper(s)); });
        reads("to_lower", [&] { use(to_lower(s)); });
        reads("to_title", [&] { use(to_title(s)); });
        reads("to_composed", [&] { use(to_composed(s)); });
        reads("to_decomposed", [&] { use(to_decomposed(s)); });
        reads("to_utf32", [&] { use(to_utf32(s)); });
        reads("reverse", [&] { use(reverse(s)); });
        reads("count_chars", [&] { (void)count_chars(s); });
        reads("contains", [&] { (void)contains(s, 0x10FFFE); });
        reads("find_first_of", [&] { (void)find_first_of(s, U"\U0010FFFE"); });
        reads("find_last_of", [&] { (void)find_last_of(s, U"\U0010FFFE"); });
        reads("trim_start_where", [&] { use(trim_start_where(s, [](char32_t) { return true; })); });
        reads("trim_end_where", [&] { use(trim_end_where(s, [](char32_t) { return true; })); });
        reads("trim_where", [&] { use(trim_where(s, [](char32_t) { return true; })); });
        reads("split", [&] { use(split(s, U"\U0010FFFE")); });
        reads("split_lines", [&] { use(split_lines(s)); });
        reads("case_insensitive::find_first", [&] { (void)case_insensitive::find_first(s, "\U0010FFFE"); });
        reads("case_insensitive::find_last", [&] { (void)case_insensitive::find_last(s, "\U0010FFFE"); });
        reads("case_insensitive::find_first_of", [&] { (void)case_insensitive::find_first_of(s, U"\U0010FFFE"); });
        reads("case_insensitive::find_last_of", [&] { (void)case_insensitive::find_last_of(s, U"\U0010FFFE"); });
        reads("case_insensitive::replace", [&] { use(case_insensitive::replace(s, "\U0010FFFE", "x")); });
        reads("case_insensitive::replace(-1)", [&] { use(case_insensitive::replace(s, "\U0010FFFE", "x", -1)); });
        reads("case_insensitive::split", [&] { use(case_insensitive::split(s, "\U0010FFFE"sv)); });
        reads("case_insensitive::compare", [&] { (void)case_insensitive::compare(s, s); });
        reads("case_insensitive::equal", [&] { (void)case_insensitive::equal(s, s); });
        reads("case_insensitive::less", [&] { (void)case_insensitive::less(s, s); });
        reads("case_insensitive::starts_with", [&] { (void)case_insensitive::starts_with(s, s); });
        reads("case_insensitive::ends_with", [&] { (void)case_insensitive::ends_with(s, s); });
        auto n = ptrdiff_t(s.size());
        reads("get_char_pos", [&] { (void)get_char_pos(s, n + 1); });
        reads("get_char_pos(-)", [&] { (void)get_char_pos(s, -n - 1); });
        reads("get_char_substring", [&] { use(get_char_substring(s, 0)); });
        reads("replace_chars", [&] { use(replace_chars(s, 0, n, "x")); });

        reads("count_codepoints", [&] { (void)count_codepoints(s); }, true);
        reads("is_valid_utf8", [&] { (void)is_valid_utf8(s); }, true);
        reads("replace_invalid_utf8", [&] { use(replace_invalid_utf8(s)); }, true);
        reads("get_codepoint_pos", [&] { (void)get_codepoint_pos(s, n); (void)get_codepoint_pos(s, -n); }, true);
        reads("get_codepoint_substring", [&] { use(get_codepoint_substring(s, 0)); use(get_codepoint_substring(s, -n, n)); }, true);
        reads("replace_codepoints", [&] { use(replace_codepoints(s, 0, n, "x")); use(replace_codepoints(s, -n, -1, "x")); }, true);
        reads("insert_codepoint", [&] { use(insert_codepoint(s, 0, U'x')); }, true);
        reads("insert_codepoints", [&] { use(insert_codepoints(s, 0, s)); use(insert_codepoints("x", 1, s)); }, true);
        reads("replace", [&] { use(replace(s, "a", s.substr(0, 64))); use(replace(s, s, s, -1)); }, true);
        reads("replace_codepoint", [&] { use(replace_codepoint(s, U'a', U'\u20AC')); }, true);
        reads("find_first", [&] { (void)find_first(s, "b"); (void)find_first("b", s); }, true);
        reads("find_last", [&] { (void)find_last(s, "b"); (void)find_last("b", s); }, true);
        reads("starts_with", [&] { (void)starts_with(s, s); (void)starts_with("a", s); }, true);
        reads("ends_with", [&] { (void)ends_with(s, s); (void)ends_with("a", s); }, true);
        reads("split(sep)", [&] { use(split(s, "a"sv)); use(split("aab"sv, s)); }, true);
        reads("append", [&] { use(append(s, U'x')); }, true);
        reads("insert_chars(0)", [&] { use(insert_chars(s, 0, s)); use(insert_char(s, 0, U'x')); }, true);
        reads("join", [&] { vector<string_view> v = {s, s}; use(join(v.begin(), v.end(), s)); }, true);
        reads("skip_next and skip_prev", [&]
        {
            auto it = s.begin();
            while (skip_next(it, s.end()))
                ;
            while (skip_prev(s.begin(), it))
                ;
        }, true);
    }

    const u32string SETS[] = {U"a", U" \t\n\r", U"\u00E9\U0001F600,", U"\u0301a \u00E9"};

    void decided(Ctx& c, string_view s, bool all_offsets = true)
    {
        size_t n = s.size();
        auto some = [&](size_t off) { return all_offsets || off < 3 || off + 3 > n; };
        auto at = [](size_t off) { return [off] { return ", " + show(off); }; };
        for (char32_t cp : {U'a', U'\u00E9', U'\U0001F600', U'\0'})
            check(c, "contains", s, [&] { return ", " + show(cp); }, [&] { return contains(s, cp) ? "true"s : "false"s; },
                  [&](Choices&) { return first_where(s, [&](char32_t x) { return x == cp; }, 0) ? "true"s : "false"s; });
        for (auto whitespace : {COMMON_WHITESPACE, ASCII_WHITESPACE})
        {
            bool dflt = whitespace.data() == COMMON_WHITESPACE.data();
            auto out = [&](char32_t x) { return !(x == ' ' || (x >= 9 && x <= 13 && (!dflt || (x != 11 && x != 12)))); };
            auto what = [&] { return dflt ? ""s : ", ASCII_WHITESPACE"s; };
            auto start = [&] { auto r = first_where(s, out, 0); return r ? r.b : n; };
            auto end = [&](size_t from) { return from + last_where(s.substr(from), out, SIZE_MAX).e; };
            check(c, "trim_start", s, what, [&] { return view(s, dflt ? trim_start(s) : trim_start(s, whitespace)); }, [&](Choices&) { return range(Range{start(), n}); });
            check(c, "trim_end", s, what, [&] { return view(s, dflt ? trim_end(s) : trim_end(s, whitespace)); }, [&](Choices&) { return range(Range{0, end(0)}); });
            check(c, "trim", s, what, [&] { return view(s, dflt ? trim(s) : trim(s, whitespace)); }, [&](Choices&) { auto b = start(); return range(Range{b, end(b)}); });
        }
        for (auto& set : SETS)
        {
            auto in = [&](char32_t x) { return set.find(x) != set.npos; };
            auto ci_in = [&](char32_t x)
            {
                for (auto y : set)
                {
                    if (same(x, y))
                        return true;
                }
                return false;
            };
            auto out = [&](char32_t x) { return !in(x); };
            auto what = [&] { return ", " + show(set); };
            CodepointSet cs;
            for (auto y : set)
                cs.add_codepoint(y);
            for (size_t off = 0; off <= n; ++off)
            {
                if (!some(off) || (&set != SETS && &set != SETS + 3))
                    continue;
                auto w = [&] { return what() + ", " + show(off); };
                check(c, "find_first_of", s, w, [&] { return found(find_first_of(s, set, off)); }, [&](Choices&) { return found(first_where(s, in, off)); });
                check(c, "find_last_of", s, w, [&] { return found(find_last_of(s, set, off)); }, [&](Choices&) { return found(last_where(s, in, off)); });
                check(c, "find_first_of(CodepointSet)", s, w, [&] { return found(find_first_of(s, cs, off)); }, [&](Choices&) { return found(first_where(s, in, off)); });
                check(c, "find_last_of(CodepointSet)", s, w, [&] { return found(find_last_of(s, cs, off)); }, [&](Choices&) { return found(last_where(s, in, off)); });
                check(c, "find_first_where", s, w, [&] { return found(find_first_where(s, out, off)); }, [&](Choices&) { return found(first_where(s, out, off)); });
                check(c, "find_last_where", s, w, [&] { return found(find_last_where(s, out, off)); }, [&](Choices&) { return found(last_where(s, out, off)); });
                check(c, "case_insensitive::find_first_of", s, w, [&] { return found(case_insensitive::find_first_of(s, set, off)); }, [&](Choices&) { return found(first_where(s, ci_in, off)); });
                check(c, "case_insensitive::find_last_of", s, w, [&] { return found(case_insensitive::find_last_of(s, set, off)); }, [&](Choices&) { return found(last_where(s, ci_in, off)); });
            }
            check(c, "case_insensitive::find_first_of(CodepointSet)", s, what, [&] { return found(case_insensitive::find_first_of(s, cs)); }, [&](Choices&) { return found(first_where(s, ci_in, 0)); });
            check(c, "case_insensitive::find_last_of(CodepointSet)", s, what, [&] { return found(case_insensitive::find_last_of(s, cs)); }, [&](Choices&) { return found(last_where(s, ci_in, SIZE_MAX)); });
            auto start = [&] { auto r = first_where(s, out, 0); return r ? r.b : n; };
            auto end = [&](size_t from) { return from + last_where(s.substr(from), out, SIZE_MAX).e; };
            check(c, "trim_start", s, what, [&] { return view(s, trim_start(s, set)); }, [&](Choices&) { return range(Range{start(), n}); });
            check(c, "trim_end", s, what, [&] { return view(s, trim_end(s, set)); }, [&](Choices&) { return range(Range{0, end(0)}); });
            check(c, "trim", s, what, [&] { return view(s, trim(s, set)); }, [&](Choices&) { auto b = start(); return range(Range{b, end(b)}); });
            check(c, "trim_start_where", s, what, [&] { return view(s, trim_start_where(s, in)); }, [&](Choices&) { return range(Range{start(), n}); });
            check(c, "trim_end_where", s, what, [&] { return view(s, trim_end_where(s, in)); }, [&](Choices&) { return range(Range{0, end(0)}); });
            check(c, "trim_where", s, what, [&] { return view(s, trim_where(s, in)); }, [&](Choices&) { auto b = start(); return range(Range{b, end(b)}); });
            for (size_t max : {SIZE_MAX, size_t(0), size_t(1), size_t(2)})
            {
                for (bool ignore : {false, true})
                {
                    SplitParams p{max, ignore};
                    auto w = [&] { return what() + fmt(", {%s, %d}", show(max).c_str(), int(ignore)); };
                    check(c, "split", s, w, [&] { return views(s, split(s, std::u32string_view(set), p)); },
                          [&](Choices&) { return split_model(s, [&](string_view r) { return first_where(r, in, 0); }, p); });
                    check(c, "case_insensitive::split", s, w, [&] { return views(s, case_insensitive::split(s, std::u32string_view(set), p)); },
                          [&](Choices&) { return split_model(s, [&](string_view r) { return first_where(r, ci_in, 0); }, p); });
                    if (&set == SETS)
                        check(c, "split_lines", s, w, [&] { return views(s, split_lines(s, p)); },
                              [&](Choices& ch) { return split_model(s, [&](string_view r) { return first_newline(r, 0, ch); }, p); });
                }
            }
        }
        for (size_t off = 0; off <= n; ++off)
        {
            if (!some(off))
                continue;
            check(c, "find_first_newline", s, at(off), [&] { return range(find_first_newline(s, off)); }, [&](Choices& ch) { return range(first_newline(s, off, ch)); });
            check(c, "find_last_newline", s, at(off), [&] { return range(find_last_newline(s, off)); }, [&](Choices& ch) { return range(last_newline(s, off, ch)); });
            check(c, "get_next_char_range", s, at(off), [&] { return range(get_next_char_range(s, off)); }, [&](Choices&) { return range(next_char(s, off)); });
            check(c, "get_prev_char_range", s, at(off), [&] { return range(get_prev_char_range(s, off)); }, [&](Choices&) { return range(prev_char(s, off)); });
        }
        for (bool back : {false, true})
        {
            auto rest = s;
            check(c, back ? "pop_last_utf8_codepoint" : "pop_utf8_codepoint", s, [&]
            {
                string r;
                try
                {
                    while (auto cp = back ? pop_last_utf8_codepoint(rest) : pop_utf8_codepoint(rest))
                        r += show(*cp) + " ";
                }
                catch (const YstringException&)
                {
                    r += FAILS;
                }
                return r + view(s, rest);
            }, [&](Choices&)
            {
                string r;
                auto m = s;
                while (!m.empty())
                {
                    auto p = back ? peek_prev(m, m.size()) : peek_next(m, 0);
                    if (!p.ok)
                    {
                        r += FAILS;
                        break;
                    }
                    r += show(p.cp) + " ";
                    m = back ? m.substr(0, p.to) : m.substr(p.to);
                }
                return r + view(s, m);
            });
        }
    }

    void indexed(Ctx& c, string_view s)
    {
        auto n = ptrdiff_t(ref::segment(s).size());
        vector<ptrdiff_t> ix = {PTRDIFF_MIN, PTRDIFF_MAX};
        for (ptrdiff_t k = -n - 1; k <= n + 1; ++k)
            ix.push_back(k);
        auto pos = [](size_t p) { return p == SIZE_MAX ? "nothing"s : show(p); };
        for (auto a : ix)
        {
            auto w = [&] { return fmt(", %td", a); };
            check(c, "get_char_pos", s, w, [&] { return pos(get_char_pos(s, a)); }, [&](Choices&) { return pos(char_pos(s, a)); });
            check(c, "get_char_range", s, w, [&] { return range(get_char_range(s, a)); }, [&](Choices&)
            {
                if (a == -1)
                    return range(prev_char(s, s.size()));
                auto p = char_pos(s, a < 0 ? a + 1 : a);
                return p == SIZE_MAX ? "nothing"s : range(a < 0 ? prev_char(s, p) : next_char(s, p));
            });
            check(c, "insert_chars", s, w, [&] { return show(insert_chars(s, a, "xy")); }, [&](Choices&)
            {
                auto p = char_pos(s, a);
                return p == SIZE_MAX ? string(FAILS) : show(string(s.substr(0, p)) + "xy" + string(s.substr(p)));
            });
            check(c, "insert_char", s, w, [&] { return show(insert_char(s, a, U'\u20AC')); }, [&](Choices&)
            {
                auto p = char_pos(s, a);
                return p == SIZE_MAX ? string(FAILS) : show(string(s.substr(0, p)) + "\u20AC" + string(s.substr(p)));
            });
            for (auto b : ix)
            {
                auto v = [&] { return fmt(", %td, %td", a, b); };
                check(c, "get_char_substring", s, v, [&] { return view(s, get_char_substring(s, a, b)); }, [&](Choices& ch)
                {
                    if ((a >= 0) == (b >= 0) && b <= a)
                    {
                        // Empty whatever the string holds.
                        try
                        {
                            char_slice(s, a, b);
                        }
                        catch (const Malformed&)
                        {
                            ch.maybe_fail();
                        }
                        return "nothing"s;
                    }
                    return range(char_slice(s, a, b));
                });
                check(c, "replace_chars", s, v, [&] { return show(replace_chars(s, a, b, "xy")); }, [&](Choices&)
                {
                    auto r = char_slice(s, a, b);
                    return show(string(s.substr(0, r.b)) + "xy" + string(s.substr(r.e)));
                });
            }
        }
        // Counting code points does not interpret them: only the one asked for can fail.
        auto cps = ptrdiff_t(count_codepoints(s));
        auto offset = [&](ptrdiff_t k)
        {
            auto it = k < 0 ? s.end() : s.begin();
            for (; k > 0; --k)
            {
                if (!skip_next(it, s.end()))
                    return SIZE_MAX;
            }
            for (; k < 0; ++k)
            {
                if (!skip_prev(s.begin(), it))
                    return SIZE_MAX;
            }
            return size_t(it - s.begin());
        };
        for (auto k : ix)
        {
            auto w = [&] { return fmt(", %td", k); };
            size_t p = k > cps || k < -cps ? SIZE_MAX : offset(k);
            auto spliced = [&](string_view what) { return p == SIZE_MAX ? string(FAILS) : show(string(s.substr(0, p)) + string(what) + string(s.substr(p))); };
            check(c, "get_codepoint_pos", s, w, [&] { return pos(get_codepoint_pos(s, k)); }, [&](Choices&) { return pos(p); });
            check(c, "insert_codepoints", s, w, [&] { return show(insert_codepoints(s, k, "\xFFx")); }, [&](Choices&) { return spliced("\xFFx"); });
            check(c, "insert_codepoint", s, w, [&] { return show(insert_codepoint(s, k, U'\u20AC')); }, [&](Choices&) { return spliced("\u20AC"); });
            for (auto l : ix)
            {
                c.call(2);
                try
                {
                    auto v = get_codepoint_substring(s, k, l);
                    MC_OK(c, v.empty() || mc::inside(v, s), "get_codepoint_substring(%s, %td, %td)", show(s).c_str(), k, l);
                    auto r = replace_codepoints(s, k, l, "\xFFx");
                    MC_OK(c, r.size() == s.size() - v.size() + 2, "replace_codepoints(%s, %td, %td) is %s", show(s).c_str(), k, l, show(r).c_str());
                }
                catch (const YstringException&)
                {
                    c.fail(fmt("get_codepoint_substring or replace_codepoints(%s, %td, %td): unexpected YstringException", show(s).c_str(), k, l));
                }
            }
        }
        for (ptrdiff_t k = -cps - 1; k <= cps + 1; ++k)
        {
            check(c, "get_codepoint", s, [&] { return fmt(", %td", k); }, [&] { return found(get_codepoint(s, k)); }, [&](Choices&)
            {
                if (k >= 0)
                {
                    auto it = s.begin();
                    for (ptrdiff_t j = 0; j < k; ++j)
                        skip_next(it, s.end());
                    size_t i = size_t(it - s.begin());
                    if (i == s.size())
                        return "nothing"s;
                    auto r = read_next(s, i);
                    return found(Range{i, r.to, r.cp});
                }
                auto it = s.end();
                for (ptrdiff_t j = -1; j > k; --j)
                    skip_prev(s.begin(), it);
                size_t i = size_t(it - s.begin());
                if (i == 0)
                    return "nothing"s;
                auto r = read_prev(s, i);
                return found(Range{r.to, i, r.cp});
            });
        }
    }

    void pair(Ctx& c, string_view s, string_view t, bool all_offsets = true)
    {
        namespace ci = case_insensitive;
        auto w = [&] { return ", " + show(t); };
        auto yes = [](bool b) { return b ? "true"s : "false"s; };
        c.state();
        check(c, "case_insensitive::compare", s, w, [&] { auto r = ci::compare(s, t); return show(r < 0 ? -1 : r > 0); }, [&](Choices& ch) { return show(ci_compare(s, t, ch)); });
        check(c, "case_insensitive::equal", s, w, [&] { return yes(ci::equal(s, t)); }, [&](Choices& ch) { return yes(ci_compare(s, t, ch) == 0); });
        check(c, "case_insensitive::less", s, w, [&] { return yes(ci::less(s, t)); }, [&](Choices& ch) { return yes(ci_compare(s, t, ch) < 0); });
        check(c, "case_insensitive::starts_with", s, w, [&] { return yes(ci::starts_with(s, t)); }, [&](Choices& ch)
        {
            if (t.empty() && !s.empty() && !peek_next(s, 0).ok)
                ch.maybe_fail();
            return yes(ci_at(s, 0, t, ch).has_value());
        });
        check(c, "case_insensitive::ends_with", s, w, [&] { return yes(ci::ends_with(s, t)); }, [&](Choices& ch) { return yes(ci_back(s, s.size(), t, ch).has_value()); });
        for (size_t off = 0; off <= s.size(); ++off)
        {
            if (!all_offsets && off > 1 && off < s.size())
                continue;
            auto o = [&] { return w() + ", " + show(off); };
            check(c, "case_insensitive::find_first", s, o, [&] { return range(ci::find_first(s, t, off)); }, [&](Choices& ch) { return range(ci_first(s, t, off, ch)); });
            check(c, "case_insensitive::find_last", s, o, [&] { return range(ci::find_last(s, t, off)); }, [&](Choices& ch) { return range(ci_last(s, t, off, ch)); });
        }
        for (ptrdiff_t n : {PTRDIFF_MAX, ptrdiff_t(1), ptrdiff_t(2), ptrdiff_t(0), ptrdiff_t(-1), ptrdiff_t(-2), PTRDIFF_MIN})
            check(c, "case_insensitive::replace", s, [&] { return w() + fmt(", #, %td", n); }, [&] { return show(ci::replace(s, t, "#", n)); },
                  [&](Choices& ch) { return show(ci_replace(s, t, "#", n, ch)); });
        for (size_t max : {SIZE_MAX, size_t(0), size_t(1), size_t(2)})
        {
            SplitParams p{max, max == 2};
            check(c, "case_insensitive::split", s, [&] { return w() + ", at most " + show(max); }, [&] { return views(s, ci::split(s, t, p)); },
                  [&](Choices& ch) { return split_model(s, [&](string_view r) { return ci_first(r, t, 0, ch); }, p); });
        }
    }
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    {
        auto al = concat(us(U"aA ,\r\n\u00E9\u0301\U0001F600"), bytes({0x80, 0xC3, 0xE2, 0xF0, 0xFF}));
        StringSpace sp(al, 0, T ? 5 : 4);
        h.add("texts", fmt("all strings of up to %d of %zu code points and bytes: everything that searches, trims, splits, counts or converts, at all offsets", T ? 5 : 4, al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            Exact e(s);
            c.state();
            c.sample([&] { return "what fails on " + show(s); });
            whole(c, e.view());
            decided(c, e.view());
        }, 16);
        StringSpace ip(al, 0, T ? 4 : 3);
        h.add("indexes", fmt("all strings of up to %d of %zu code points and bytes: everything that takes one or two indexes, with all of them", T ? 4 : 3, al.size()), ip.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = ip.get(i);
            Exact e(s);
            c.state();
            indexed(c, e.view());
        }, 16);
    }
    {
        StringSpace sp(concat(us(U"a\u0301"), bytes({0x80, 0xC3, 0xE2, 0xF0, 0xFF})), 4, T ? 6 : 5);
        h.add("longer", fmt("all strings of 4 to %d of 2 code points and 5 bytes", T ? 6 : 5), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            Exact e(s);
            c.state();
            whole(c, e.view());
            decided(c, e.view(), false);
        }, 16);
    }
    {
        auto al = T ? concat(us(U"aAb\u00E9\u00C9\u0301"), bytes({0x80, 0xC3, 0xE2, 0xFF})) : concat(us(U"aAb\u00E9"), bytes({0x80, 0xC3, 0xFF}));
        StringSpace sp(al, 0, 3);
        auto all = std::make_shared<vector<string>>();
        for (uint64_t i = 0; i < sp.count(); ++i)
            all->push_back(sp.get(i));
        h.add("pairs", fmt("all ordered pairs of strings of up to 3 of %zu code points and bytes: everything that compares two strings ignoring case", al.size()), all->size(), [=](Ctx& c, uint64_t i)
        {
            Exact s((*all)[i]);
            for (auto& x : *all)
            {
                Exact t(x);
                pair(c, s.view(), t.view());
            }
        }, 1);
        StringSpace lp(al, 4, T ? 5 : 4), tp(al, 0, 2);
        h.add("longer-pairs", fmt("all strings of 4%s of the same against all of up to 2", T ? " and 5" : ""), lp.count(), [=](Ctx& c, uint64_t i)
        {
            Exact s(lp.get(i));
            for (uint64_t j = 0; j < tp.count(); ++j)
            {
                auto t = tp.get(j);
                pair(c, s.view(), t, false);
                pair(c, t, s.view(), false);
            }
        }, 8);
    }
    h.add("two-bytes", "every sequence of one and of two bytes, alone, before, after and between others", 256 * 256, [](Ctx& c, uint64_t i)
    {
        string x{char(i / 256), char(i % 256)};
        for (auto& y : {x, x.substr(1)})
        {
            for (auto& s : {y, "a" + y, y + "a", "a" + y + "b", u(0xE9) + y + u(0x301), y + "\x80", "\xE2" + y, "\xF0" + y + "\x80"})
            {
                Exact e(s);
                c.state();
                whole(c, e.view());
                pair(c, e.view(), "b", false);
            }
            decided(c, "a" + y + "b", false);
            if (i / 256)
                break;
        }
    }, 16);
    {
        auto al = bytes({'a', 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF});
        StringSpace sp(al, 3, T ? 4 : 3);
        h.add("sequences", fmt("every sequence of 3%s of %zu bytes around which decoders decide, alone, before and after others", T ? " and 4" : "", al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto x = sp.get(i);
            for (auto& s : {x, "a" + x, x + "b", x + "\x80"})
            {
                Exact e(s);
                c.state();
                whole(c, e.view());
            }
            decided(c, "a" + x + "b", false);
        }, 16);
    }
    {
        auto ks = pump_counts(T);
        vector<string> vs = {"a", u(0xE9), u(0x1F600), " ", "e" + u(0x301), "\r\n"};
        vector<string> ws = {"\x80", "\xC3", "\xE2\x82", "\xF0\x9F\x98", "\xFF", "\xC3" "a", "\x80\x80\x80\x80\x80"};
        h.add("pumped", fmt("malformed text before and after v^k and between two of them: %zu counts k, %zu v, %zu malformed stretches", ks.size(), vs.size(), ws.size()), ks.size() * vs.size() * ws.size(), [=](Ctx& c, uint64_t i)
        {
            auto& v = vs[i % vs.size()];
            auto& w = ws[i / vs.size() % ws.size()];
            size_t k = ks[i / vs.size() / ws.size()];
            if (k > 300 && (i + i / vs.size()) % 5)
                return;
            auto r = repeat(v, k);
            for (auto& s : {r + w, w + r, r + w + r, "x" + w + r + "x", "x" + r + w + "x", "x" + r + w + "x" + r})
            {
                c.state();
                whole(c, s);
                auto x = [](char32_t ch) { return ch == 'x'; };
                auto ends = [&](size_t off)
                {
                    check(c, "find_first_of", s, [&] { return ", x, " + show(off); }, [&] { return found(find_first_of(s, U"x", off)); }, [&](Choices&) { return found(first_where(s, x, off)); });
                    check(c, "find_last_of", s, [&] { return ", x, " + show(off); }, [&] { return found(find_last_of(s, U"x", off)); }, [&](Choices&) { return found(last_where(s, x, off)); });
                };
                ends(0), ends(1), ends(s.size() / 2), ends(s.size() - 1), ends(s.size());
                check(c, "contains", s, [&] { return contains(s, U'x') ? "true"s : "false"s; }, [&](Choices&) { return first_where(s, x, 0) ? "true"s : "false"s; });
                check(c, "find_first_newline", s, [&] { return range(find_first_newline(s)); }, [&](Choices& ch) { return range(first_newline(s, 0, ch)); });
                check(c, "find_last_newline", s, [&] { return range(find_last_newline(s)); }, [&](Choices& ch) { return range(last_newline(s, SIZE_MAX, ch)); });
                check(c, "case_insensitive::find_first", s, [&] { return range(case_insensitive::find_first(s, "X")); }, [&](Choices& ch) { return range(ci_first(s, "X", 0, ch)); });
                check(c, "case_insensitive::find_last", s, [&] { return range(case_insensitive::find_last(s, "X")); }, [&](Choices& ch) { return range(ci_last(s, "X", SIZE_MAX, ch)); });
                auto no_space = [](char32_t ch) { return ch != ' ' && ch != '\n' && ch != '\r' && ch != '\t'; };
                auto start = [&] { auto f = first_where(s, no_space, 0); return f ? f.b : s.size(); };
                auto end = [&](size_t from) { return from + last_where(string_view(s).substr(from), no_space, SIZE_MAX).e; };
                check(c, "trim_start", s, [&] { return view(s, trim_start(s)); }, [&](Choices&) { return range(Range{start(), s.size()}); });
                check(c, "trim_end", s, [&] { return view(s, trim_end(s)); }, [&](Choices&) { return range(Range{0, end(0)}); });
                check(c, "trim", s, [&] { return view(s, trim(s)); }, [&](Choices&) { auto b = start(); return range(Range{b, end(b)}); });
                check(c, "split", s, [&] { return views(s, split(s, U"x", {1})); }, [&](Choices&) { return split_model(s, [&](string_view q) { return first_where(q, x, 0); }, {1}); });
                check(c, "split_lines", s, [&] { return views(s, split_lines(s, {1})); }, [&](Choices& ch) { return split_model(s, [&](string_view q) { return first_newline(q, 0, ch); }, {1}); });
                if (k <= 300)
                {
                    check(c, "get_char_pos", s, [&] { return show(get_char_pos(s, ptrdiff_t(k / 2))); }, [&](Choices&) { return show(char_pos(s, ptrdiff_t(k / 2))); });
                    check(c, "get_char_pos(-)", s, [&] { return show(get_char_pos(s, -ptrdiff_t(k / 2))); }, [&](Choices&) { return show(char_pos(s, -ptrdiff_t(k / 2))); });
                    pair(c, s, "x" + r, false);
                    pair(c, "x" + r, s, false);
                }
            }
        }, 4);
    }
    add_blocks(h, vector<string>{"a", u(0xE9)}, block_symbols(true), few_block_symbols(true), [](Ctx& c, const string& s, const string& x, const string& f)
    {
        c.state();
        whole(c, s);
        auto at = s.find(x);
        auto other = [&](char32_t ch) { return ch != ref::dec(f)[0]; };
        check(c, "find_first_where", s, [&] { return found(find_first_where(s, other)); }, [&](Choices&) { return found(first_where(s, other, 0)); });
        check(c, "find_last_where", s, [&] { return found(find_last_where(s, other)); }, [&](Choices&) { return found(last_where(s, other, SIZE_MAX)); });
        check(c, "find_first_newline", s, [&] { return range(find_first_newline(s)); }, [&](Choices& ch) { return range(first_newline(s, 0, ch)); });
        check(c, "case_insensitive::find_first", s, [&] { return range(case_insensitive::find_first(s, f + x)); }, [&](Choices& ch) { return range(ci_first(s, f + x, 0, ch)); });
        check(c, "case_insensitive::compare", s, [&] { return show(case_insensitive::compare(s, s.substr(0, at)) > 0); }, [&](Choices& ch) { return show(ci_compare(s, s.substr(0, at), ch) > 0); });
        check(c, "get_next_char_range", s, [&] { return range(get_next_char_range(s, at ? at - f.size() : 0)); }, [&](Choices&) { return range(next_char(s, at ? at - f.size() : 0)); });
    });
}
