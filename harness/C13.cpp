// C13: split and join.
#include <forward_list>
#include <list>
#include "common.hpp"
#include "Ystring/Algorithms.hpp"

using namespace mc;
using namespace ystring;

// Cuts s at the given separators (byte ranges in order).
static vector<string_view> cut(string_view s, const vector<ref::Span>& seps, size_t max, bool ignore)
{
    vector<string_view> r;
    size_t b = 0;
    for (auto& e : seps)
    {
        if (r.size() >= max)
            break;
        if (!ignore || e.b > b)
            r.push_back(s.substr(b, e.b - b));
        b = e.e;
    }
    if (!ignore || b < s.size())
        r.push_back(s.substr(b));
    return r;
}

static vector<ref::Span> by_string(string_view s, string_view sep)
{
    vector<ref::Span> r;
    size_t i = 0;
    while (!sep.empty() && i + sep.size() <= s.size())
    {
        if (s.substr(i, sep.size()) == sep)
            r.push_back({i, i + sep.size()}), i += sep.size();
        else
            ++i;
    }
    return r;
}

static vector<ref::Span> by_chars(string_view s, const u32string& chars)
{
    vector<ref::Span> r;
    for (auto& g : ref::segment(s))
    {
        if (chars.find(g.cp) != u32string::npos)
            r.push_back({g.b, g.e});
    }
    return r;
}

static void same(Ctx& c, const vector<string_view>& got, const vector<string_view>& want, string_view s, const string& sep, SplitParams p)
{
    MC_EQ(c, got, want, "split(%s, %s, {%s, %s})", show(s).c_str(), sep.c_str(), show(p.max_splits).c_str(), show(p.ignore_empty).c_str());
    for (size_t k = 0; k < got.size(); ++k)
        MC_OK(c, got[k].empty() || got[k].data() == want[k].data(), "split(%s, %s): part %zu is not the part of the argument", show(s).c_str(), sep.c_str(), k);
    c.outcome(got.size() * 131 + (got.empty() ? 0 : got[0].size() * 7 + got.back().size()));
}

static void string_sep(Ctx& c, string_view s, string_view sep, SplitParams p)
{
    same(c, split(s, sep, p), cut(s, by_string(s, sep), p.max_splits, p.ignore_empty), s, show(sep), p);
}

static void char_sep(Ctx& c, string_view s, const u32string& chars, SplitParams p)
{
    same(c, split(s, std::u32string_view(chars), p), cut(s, by_chars(s, chars), p.max_splits, p.ignore_empty), s, show(chars), p);
}

static const SplitParams PARAMS[] = {{}, IGNORE_EMPTY, {0, false}, {1, false}, {2, false}, {3, false}, {0, true}, {1, true}, {2, true}, {3, true}};

static void all(Ctx& c, string_view s, const vector<string>& seps, const vector<u32string>& chars)
{
    c.sample([&] { return fmt("split of %s by %zu separators, with 10 settings", show(s).c_str(), seps.size() + chars.size()); });
    c.state();
    for (auto& sep : seps)
    {
        for (auto& p : PARAMS)
            string_sep(c, s, sep, p);
        auto parts = split(s, sep);
        same(c, parts, cut(s, by_string(s, sep), SIZE_MAX, false), s, show(sep), {});
        auto rejoined = join(parts.begin(), parts.end(), sep);
        MC_EQ(c, rejoined, s, "join(split(%s, %s))", show(s).c_str(), show(sep).c_str());
    }
    for (auto& ch : chars)
    {
        for (auto& p : PARAMS)
            char_sep(c, s, ch, p);
        same(c, split(s, std::u32string_view(ch)), cut(s, by_chars(s, ch), SIZE_MAX, false), s, show(ch), {});
    }
}

// Elements that can be read once, like those of a stream.
struct Source
{
    const vector<string>* parts;
    size_t at = 0;
};

struct SinglePass
{
    using iterator_category = std::input_iterator_tag;
    using value_type = string;
    using difference_type = ptrdiff_t;
    using pointer = const string*;
    using reference = const string&;

    Source* src = nullptr;

    bool done() const { return !src || src->at == src->parts->size(); }
    const string& operator*() const { return (*src->parts)[src->at]; }
    const string* operator->() const { return &**this; }
    SinglePass& operator++()
    {
        ++src->at;
        return *this;
    }
    void operator++(int) { ++src->at; }
    friend bool operator==(const SinglePass& a, const SinglePass& b) { return a.done() == b.done(); }
};

// Gives temporary strings.
struct Temporaries
{
    using iterator_category = std::input_iterator_tag;
    using value_type = string;
    using difference_type = ptrdiff_t;
    using pointer = void;
    using reference = string;

    const vector<string>* parts = nullptr;
    size_t at = 0;

    string operator*() const { return (*parts)[at]; }
    Temporaries& operator++()
    {
        ++at;
        return *this;
    }
    void operator++(int) { ++at; }
    friend bool operator==(const Temporaries& a, const Temporaries& b) { return a.at == b.at; }
};

void mc::build(Harness& h)
{
    bool T = h.thorough;
    {
        StringSpace sp(bytes({'a', ',', ';'}), 0, T ? 10 : 9);
        vector<string> seps = {",", ",;", ",,", "a", "", ",a,"};
        vector<u32string> chars = {U",", U";,", U"", U"a\u20AC"};
        h.add("separators", fmt("all texts of up to %d of {a , ;}, 6 separators, 4 character lists, 10 settings", T ? 10 : 9), sp.count(),
              [=](Ctx& c, uint64_t i) { all(c, sp.get(i), seps, chars); }, 16);
    }
    {
        StringSpace sp(us(U"a\u00E9\u20AC\U0001F600"), 0, T ? 8 : 7);
        vector<string> seps = {u(0x20AC), u(0xE9) + u(0x1F600), "a"};
        vector<u32string> chars = {U"\u20AC", U"\u00E9\U0001F600", U"a\u20AC"};
        h.add("code-points", fmt("all texts of up to %d of 4 code points of 1-4 bytes, separators of 1-6 bytes", T ? 8 : 7), sp.count(),
              [=](Ctx& c, uint64_t i) { all(c, sp.get(i), seps, chars); }, 16);
    }
    {
        StringSpace sp(bytes({0, 'a', 0x80, 0xC3, 0xFF}), 0, T ? 7 : 6);
        vector<string> seps = {string(1, 0), "\x80", "\xC3\x80", "\xFF\xFF"};
        h.add("bytes", fmt("all byte texts (also malformed) of up to %d of 5 bytes, 4 separators", T ? 7 : 6), sp.count(), [=](Ctx& c, uint64_t i) { all(c, sp.get(i), seps, {}); }, 16);
    }
    h.add("all-codepoints", "every code point as separator (as string and as character) and as text", 0x110000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            auto e = u(cp);
            c.state();
            for (auto& p : PARAMS)
            {
                string_sep(c, "a" + e + e + "b" + e, e, p);
                char_sep(c, "a" + e + e + "b" + e, {U'#', cp}, p);
            }
            char32_t o = cp ^ (1u << (cp % 20));
            string_sep(c, "a" + e + "," + e, ",", {});
            if (o <= 0x10FFFF)
                char_sep(c, "a" + e + "," + e, {U',', o}, {});
            char_sep(c, "a" + e + "," + e, neighbours(cp), {});
        }
    }, 8);
    {
        vector<string> ps = {"", "abc", repeat("d", 15), repeat("e", 16), repeat("fg", 20), repeat("h", 300), repeat(u(0x20AC), 1000)};
        Sequences q{ps.size(), 0, T ? 6u : 5u};
        h.add("join-temporaries", fmt("join of all lists of up to %u of %zu parts of up to 3000 bytes with 4 delimiters, from iterators that give temporary strings, C strings, and from the end to the beginning", q.max_len, ps.size()), q.count(), [=](Ctx& c, uint64_t i)
        {
            vector<unsigned> v;
            q.get(i, v);
            vector<string> parts;
            for (auto k : v)
                parts.push_back(ps[k]);
            vector<const char*> cs;
            for (auto& p : parts)
                cs.push_back(p.c_str());
            for (auto& d : {string(), string(","), repeat("-", 20), repeat("+", 600)})
            {
                string want, back;
                for (size_t k = 0; k < parts.size(); ++k)
                {
                    want += (k ? d : string()) + parts[k];
                    back += (k ? d : string()) + parts[parts.size() - 1 - k];
                }
                c.state();
                MC_EQ(c, join(Temporaries{&parts, 0}, Temporaries{&parts, parts.size()}, d), want, "join(%zu temporary strings, %s)", parts.size(), show(d).c_str());
                MC_EQ(c, join(cs.begin(), cs.end(), d), want, "join(%zu C strings, %s)", parts.size(), show(d).c_str());
                MC_EQ(c, join(parts.rbegin(), parts.rend(), d), back, "join(%zu strings in reverse, %s)", parts.size(), show(d).c_str());
                c.outcome(hash(want));
            }
        }, 16);
    }
    {
        StringSpace sp(vector<string>{"a", "bc", "", u(0x20AC), "\xFF", ","}, 0, T ? 6 : 5);
        h.add("join", fmt("join of all lists of up to %d of 6 parts with 4 delimiters, as vectors, lists and arrays of views", T ? 6 : 5), sp.count(), [sp](Ctx& c, uint64_t i)
        {
            vector<unsigned> v;
            sp.seq.get(i, v);
            c.state();
            for (auto& d : vector<string>{"", ",", ", ", u(0x1F600)})
            {
                vector<string> parts;
                vector<string_view> views;
                std::list<string> li;
                string want;
                for (size_t k = 0; k < v.size(); ++k)
                {
                    parts.push_back(sp.symbols[v[k]]);
                    want += (k ? d : "") + parts.back();
                }
                views.assign(parts.begin(), parts.end());
                li.assign(parts.begin(), parts.end());
                auto keep = parts;
                c.sample([&] { return "join(" + show(parts) + ", " + show(d) + ")"; });
                MC_EQ(c, join(parts.begin(), parts.end(), d), want, "join(%s, %s)", show(parts).c_str(), show(d).c_str());
                MC_EQ(c, join(views.data(), views.data() + views.size(), d), want, "join(views of %s, %s)", show(parts).c_str(), show(d).c_str());
#ifndef YS_NO_LIST
                MC_EQ(c, join(li.begin(), li.end(), d), want, "join(list %s, %s)", show(parts).c_str(), show(d).c_str());
#endif
#ifndef YS_NO_FORWARD
                std::forward_list<string> fl(parts.begin(), parts.end());
                MC_EQ(c, join(fl.begin(), fl.end(), d), want, "join(forward list %s, %s)", show(parts).c_str(), show(d).c_str());
#endif
#ifndef YS_NO_SINGLE_PASS
                Source src{&parts};
                MC_EQ(c, join(SinglePass{&src}, SinglePass{}, d), want, "join(%s read once, %s)", show(parts).c_str(), show(d).c_str());
                MC_EQ(c, src.at, parts.size(), "join(%s read once, %s): elements read", show(parts).c_str(), show(d).c_str());
#endif
                MC_OK(c, parts == keep, "join changed its arguments");
                if (d.empty())
                    MC_EQ(c, join(parts.begin(), parts.end()), want, "join(%s)", show(parts).c_str());
                c.outcome(hash(want));
            }
        }, 32);
    }
    {
        auto ks = pump_counts(T);
        vector<std::array<string, 3>> uvw;
        for (auto& v : vector<string>{",", "a,", "ab", ",,a", u(0x20AC) + ","})
        {
            for (auto& a : vector<string>{"", "a", ","})
            {
                for (auto& b : vector<string>{"", "a", ","})
                    uvw.push_back({a, v, b});
            }
        }
        h.add("pumped", fmt("u v^k w with k in %zu values up to %zu, limits around k, separators of k bytes", ks.size(), ks.back()), uvw.size() * ks.size(), [=](Ctx& c, uint64_t i)
        {
            auto& [a, v, b] = uvw[i % uvw.size()];
            size_t k = ks[i / uvw.size()];
            if (k > 300 && (i % uvw.size()) % 11)
                return;
            auto s = a + repeat(v, k) + b;
            c.state();
            for (auto m : {SIZE_MAX, k, k + 1, k - std::min<size_t>(k, 1), k / 2})
            {
                for (bool ig : {false, true})
                {
                    string_sep(c, s, ",", {m, ig});
                    char_sep(c, s, U",\u20AC", {m, ig});
                }
            }
            if (k <= 4097)
            {
                auto sep = repeat(v, k) + ";";
                string_sep(c, "x" + sep + "y" + sep + sep, sep, {});
                auto parts = split(s, ",");
                MC_EQ(c, join(parts.begin(), parts.end(), ","), s, "join(split(%s))", show(s).c_str());
            }
        }, 4);
    }
    h.add("wide-limits", fmt("%zu limits (2^k +- 0..3, and their complements) with 6 texts", wide_numbers().size()), 6, [](Ctx& c, uint64_t i)
    {
        static const string texts[] = {"", ",", "a,b,,c,", ",,,,", repeat("a,", 260), repeat(",", 260)};
        auto& s = texts[i];
        c.sample([&] { return "limits far from those that matter, in " + show(s); });
        for (auto k : wide_numbers())
        {
            for (bool ig : {false, true})
            {
                c.state();
                string_sep(c, s, ",", {size_t(k), ig});
                char_sep(c, s, U",;", {size_t(k), ig});
            }
        }
    });
    add_blocks(h, vector<string>{"a", "\xC3\x84"}, block_symbols(true), few_block_symbols(true), [](Ctx& c, const string& s, const string& x, const string&)
    {
        string_sep(c, s, x, {});
        if (ref::valid(s))
            char_sep(c, s, ref::dec(x), {SIZE_MAX, true});
        c.state();
    });
}
