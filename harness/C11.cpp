// C11: trimming.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"
#include "Ystring/CodepointPredicates.hpp"

using namespace mc;
using namespace ystring;

template <typename P>
static std::pair<size_t, size_t> keep(string_view s, const P& p, bool front, bool back)
{
    auto g = ref::segment(s);
    size_t f = 0, l = g.size();
    if (front)
    {
        while (f < l && p(g[f].cp))
            ++f;
    }
    if (back)
    {
        while (l > f && p(g[l - 1].cp))
            --l;
    }
    if (f == l)
        return {0, 0};
    return {g[f].b, g[l - 1].e};
}

static void compare(Ctx& c, string_view s, string_view got, std::pair<size_t, size_t> want, const char* name, const string& what)
{
    auto w = s.substr(want.first, want.second - want.first);
    MC_EQ(c, got, w, "%s(%s, %s)", name, show(s).c_str(), what.c_str());
    if (!w.empty())
        MC_OK(c, got.data() == w.data(), "%s(%s, %s): not a view of the argument", name, show(s).c_str(), what.c_str());
    c.outcome(want.first * 64 + want.second);
}

template <typename P>
static void where(Ctx& c, string_view s, const P& p, const string& what)
{
    c.state();
    compare(c, s, trim_start_where(s, p), keep(s, p, true, false), "trim_start_where", what);
    compare(c, s, trim_end_where(s, p), keep(s, p, false, true), "trim_end_where", what);
    compare(c, s, trim_where(s, p), keep(s, p, true, true), "trim_where", what);
}

static void chars(Ctx& c, string_view s, const u32string& set)
{
    auto p = [&](char32_t ch) { return set.find(ch) != u32string::npos; };
    std::u32string_view sv(set);
    c.state();
    compare(c, s, trim_start(s, sv), keep(s, p, true, false), "trim_start", show(set));
    compare(c, s, trim_end(s, sv), keep(s, p, false, true), "trim_end", show(set));
    compare(c, s, trim(s, sv), keep(s, p, true, true), "trim", show(set));
}

static void dflt(Ctx& c, string_view s)
{
    auto p = [](char32_t ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r'; };
    c.sample([&] { return "default trim of " + show(s); });
    c.state();
    compare(c, s, trim_start(s), keep(s, p, true, false), "trim_start", "default");
    compare(c, s, trim_end(s), keep(s, p, false, true), "trim_end", "default");
    compare(c, s, trim(s), keep(s, p, true, true), "trim", "default");
}

static void all(Ctx& c, string_view s)
{
    dflt(c, s);
    chars(c, s, U"a\u00E9 ");
    chars(c, s, U"\u20AC\U0001F600\t");
    chars(c, s, U"");
    where(c, s, [](char32_t ch) { return ch == ' ' || ch > 0x2000; }, "space or above U+2000");
    where(c, s, [](char32_t) { return true; }, "everything");
    where(c, s, [](char32_t) { return false; }, "nothing");
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    {
        StringSpace sp(us(U" \t\na\u00E9\u20AC\U0001F600"), 0, T ? 8 : 7);
        h.add("strings", fmt("all strings of up to %d of 7 code points, default set, 3 sets and 3 predicates", T ? 8 : 7), sp.count(), [sp](Ctx& c, uint64_t i) { all(c, sp.get(i)); }, 64);
    }
    {
        StringSpace sp(us(U" \t\n\r\v\f\0\u0085\u00A0\u2028x"s), 0, T ? 6 : 5);
        h.add("whitespace", fmt("default trimming of all strings of up to %d of 11 whitespace and other characters", T ? 6 : 5), sp.count(), [sp](Ctx& c, uint64_t i) { dflt(c, sp.get(i)); }, 64);
    }
    h.add("all-codepoints", "every code point at the ends, with the default sets, ASCII_WHITESPACE, a set that holds it and sets that do not", 0x110000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            auto e = u(cp);
            dflt(c, e);
            dflt(c, e + "x" + e);
            dflt(c, " " + e + "\t");
            string s = e + " x " + e;
            auto p = [](char32_t ch) { return ch == ' ' || (ch >= 9 && ch <= 13); };
            compare(c, s, trim(s, ASCII_WHITESPACE), keep(s, p, true, true), "trim", "ASCII_WHITESPACE");
            chars(c, e + e + "x" + e, u32string{U'y', cp, U'z'});
            char32_t o = cp ^ (1u << (cp % 20));
            chars(c, e + "x" + e, u32string{o == 'x' ? 'y' : o});
            chars(c, e + "x" + e, neighbours(cp, U"x"));
            where(c, e + "7" + e, [](char32_t ch) { return is_letter(ch) || is_whitespace(ch); }, "letter or whitespace");
        }
    }, 8);
    {
        auto ks = pump_counts(T);
        vector<string> parts = {"", "x", " ", "\r\n", u(0x20AC)};
        vector<std::array<string, 3>> uvw;
        for (auto& v : vector<string>{" ", "\t", "x", "\r\n ", u(0x20AC), " x"})
        {
            for (auto& a : parts)
            {
                for (auto& b : parts)
                    uvw.push_back({a, v, b});
            }
        }
        h.add("pumped", fmt("u v^k w, w v^k u v^k: 5 prefixes and suffixes, 6 repeated parts, %zu values of k up to %zu; sets of k entries", ks.size(), ks.back()), uvw.size() * ks.size(),
              [=](Ctx& c, uint64_t i)
        {
            auto& [a, v, b] = uvw[i % uvw.size()];
            size_t k = ks[i / uvw.size()];
            if (k > 300 && (i % uvw.size()) % 23)
                return;
            all(c, a + repeat(v, k) + b);
            all(c, repeat(v, k) + a + b + repeat(v, k));
            if (k <= 1025)
            {
                u32string set;
                for (size_t j = 0; j < k; ++j)
                    set += char32_t(0x4E00 + j);
                set += U' ';
                chars(c, " " + u(0x4E00) + "x" + u(0x4DFF + char32_t(k)) + "  ", set);
                chars(c, " " + u(0x4E00 + char32_t(k)) + " ", set);
            }
        }, 4);
    }
    add_blocks(h, vector<string>{" ", "a"}, block_symbols(), few_block_symbols(), [](Ctx& c, const string& s, const string&, const string&)
    {
        all(c, s);
    });
}
