// C12: replace and replace_codepoint.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"

using namespace mc;
using namespace ystring;

static string model(string_view s, string_view from, string_view to, ptrdiff_t limit)
{
    if (from.empty())
        return string(s);
    vector<size_t> at;
    if (limit > 0)
    {
        size_t i = 0;
        while (i + from.size() <= s.size() && (limit == PTRDIFF_MAX || ptrdiff_t(at.size()) < limit))
        {
            if (s.substr(i, from.size()) == from)
                at.push_back(i), i += from.size();
            else
                ++i;
        }
    }
    else
    {
        size_t e = s.size();
        size_t max = size_t(0) - size_t(limit);
        while (e >= from.size() && at.size() < max)
        {
            if (s.substr(e - from.size(), from.size()) == from)
                at.insert(at.begin(), e - from.size()), e -= from.size();
            else
                --e;
        }
    }
    string r;
    size_t b = 0;
    for (auto i : at)
    {
        r += s.substr(b, i - b);
        r += to;
        b = i + from.size();
    }
    return r += s.substr(b);
}

static void one(Ctx& c, string_view s, string_view from, string_view to, ptrdiff_t limit)
{
    auto want = model(s, from, to, limit);
    MC_EQ(c, replace(s, from, to, limit), want, "replace(%s, %s, %s, %td)", show(s).c_str(), show(from).c_str(), show(to).c_str(), limit);
    if (limit == PTRDIFF_MAX)
        MC_EQ(c, replace(s, from, to), want, "replace(%s, %s, %s)", show(s).c_str(), show(from).c_str(), show(to).c_str());
    c.outcome(hash(want));
}

static const ptrdiff_t LIMITS[] = {PTRDIFF_MAX, 1, 2, 3, -1, -2, -3, 5, -5, PTRDIFF_MIN, PTRDIFF_MIN + 1};

static void all(Ctx& c, string_view s, string_view from, string_view to)
{
    c.sample([&] { return "replace(" + show(s) + ", " + show(from) + ", " + show(to) + ") = " + show(model(s, from, to, PTRDIFF_MAX)) + " and with 10 limits"; });
    c.state();
    for (auto k : LIMITS)
        one(c, s, from, to, k);
}

static void codepoint(Ctx& c, string_view s, char32_t from, char32_t to)
{
    c.state();
    for (auto k : {PTRDIFF_MAX, ptrdiff_t(1), ptrdiff_t(2), ptrdiff_t(-1), ptrdiff_t(-2)})
    {
        auto want = model(s, u(from), u(to), k);
        MC_EQ(c, replace_codepoint(s, from, to, k), want, "replace_codepoint(%s, %s, %s, %td)", show(s).c_str(), show(from).c_str(), show(to).c_str(), k);
        if (k == PTRDIFF_MAX)
            MC_EQ(c, replace_codepoint(s, from, to), want, "replace_codepoint(%s, %s, %s)", show(s).c_str(), show(from).c_str(), show(to).c_str());
    }
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    {
        StringSpace sp(bytes({'a', 'b'}), 0, T ? 12 : 10), fs(bytes({'a', 'b'}), 0, 4);
        vector<string> to = {"", "a", "ab", "ba", "xyz", "aabb"};
        h.add("two-letters", fmt("all texts of up to %d and patterns of up to 4 over {a, b}, 6 replacements (also ones that contain the pattern), 11 limits", T ? 12 : 10), sp.count(),
              [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            for (uint64_t f = 0; f < fs.count(); ++f)
            {
                for (auto& t : to)
                    all(c, s, fs.get(f), t);
            }
        }, 8);
    }
    {
        StringSpace sp(us(U"a\u00E9\u20AC\U0001F600"), 0, T ? 7 : 6), fs(us(U"a\u00E9\u20AC\U0001F600"), 0, 2);
        vector<string> to = {"", "e", u(0x20AC) + "a", u(0x1F600)};
        h.add("code-points", fmt("all texts of up to %d and patterns of up to 2 of 4 code points of 1-4 bytes, 4 replacements, 11 limits; replace_codepoint with all pairs", T ? 7 : 6), sp.count(),
              [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            for (uint64_t f = 0; f < fs.count(); ++f)
            {
                for (auto& t : to)
                    all(c, s, fs.get(f), t);
            }
            for (char32_t a : {U'a', U'\u00E9', U'\u20AC', U'\U0001F600', U'\0'})
            {
                for (char32_t b : {U'a', U'\u00E9', U'\u20AC', U'\U0001F600', U'\0'})
                    codepoint(c, s, a, b);
            }
        }, 8);
    }
    {
        StringSpace sp(bytes({0, 'a', 0x80, 0xC3, 0xFF}), 0, T ? 6 : 5), fs(bytes({0, 'a', 0x80, 0xC3, 0xFF}), 0, 2);
        h.add("bytes", fmt("all texts of up to %d and patterns of up to 2 of 5 bytes (also malformed)", T ? 6 : 5), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            for (uint64_t f = 0; f < fs.count(); ++f)
            {
                all(c, s, fs.get(f), "");
                all(c, s, fs.get(f), string("\0x", 2));
            }
        }, 8);
    }
    h.add("all-codepoints", "every code point as the one replaced and as the replacement; values above 10FFFF throw", 0x120000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            if (cp > 0x10FFFF)
            {
                MC_THROWS(c, replace_codepoint("abc", cp, 'x'), "replace_codepoint(abc, %s, x)", show(cp).c_str());
                MC_THROWS(c, replace_codepoint("abc", 'a', cp), "replace_codepoint(abc, a, %s)", show(cp).c_str());
                for (auto text : {"", "abc", "\x80"})
                {
                    for (ptrdiff_t k : {ptrdiff_t(1), ptrdiff_t(-1), PTRDIFF_MAX})
                        MC_THROWS(c, replace_codepoint(text, cp, cp, k), "replace_codepoint(%s, %s, the same, %td)", text, show(cp).c_str(), k);
                    MC_THROWS(c, replace_codepoint(text, 'x', cp), "replace_codepoint(%s, x, %s)", text, show(cp).c_str());
                    MC_THROWS(c, replace_codepoint(text, cp, 'x'), "replace_codepoint(%s, %s, x)", text, show(cp).c_str());
                }
                continue;
            }
            auto e = u(cp);
            codepoint(c, e + "-" + e + e, cp, '+');
            codepoint(c, "a-" + e + "aa", 'a', cp);
            codepoint(c, "a-" + e + e + "a", cp, cp);
            char32_t o = cp ^ (1u << (cp % 20));
            if (o <= 0x10FFFF)
                codepoint(c, "<" + e + ">" + e, o, 'x');
        }
    }, 8);
    h.add("wide-limits", fmt("%zu limits (2^k +- 0..3 and their negations) with 7 texts", wide_numbers().size()), 6 + 24, [](Ctx& c, uint64_t item)
    {
        auto i = std::min<uint64_t>(item, 6);
        size_t n = 0;
        string texts[] = {"", "a", "abaab", "aaaa", repeat("ab", 130), repeat("a", 260), i == 6 ? repeat("ba", 65538) : ""};
        auto& s = texts[i];
        c.sample([&] { return "limits far from those that matter, in " + show(s); });
        for (auto k : wide_numbers())
        {
            if (k == 0 || (i == 6 && k != ptrdiff_t(int16_t(k)) && k != ptrdiff_t(int32_t(k)) && (k & 3)))
                continue;
            if (i == 6 && n++ % 24 != item - 6)
                continue;
            c.state();
            one(c, s, "a", "", k);
            one(c, s, "ab", "ccc", k);
        }
    });
    {
        auto ks = pump_counts(T);
        vector<std::array<string, 3>> uvw;
        for (auto& v : vector<string>{"a", "ab", u(0xE9), "aab", "xa"})
        {
            for (auto& a : vector<string>{"", "b", "a"})
            {
                for (auto& b : vector<string>{"", "b", "a"})
                    uvw.push_back({a, v, b});
            }
        }
        h.add("pumped", fmt("u v^k w with k in %zu values up to 1025: short patterns with limits around k, patterns v^j, and replacements of k bytes", ks.size()), uvw.size() * ks.size(),
              [=](Ctx& c, uint64_t i)
        {
            auto& [a, v, b] = uvw[i % uvw.size()];
            size_t k = ks[i / uvw.size()];
            if (k > 1025 || (k > 60 && (i % uvw.size()) % 4 != k % 4))
                return;
            auto s = a + repeat(v, k) + b;
            auto K = ptrdiff_t(k);
            c.state();
            for (auto& f : vector<string>{v, "a", "aa", repeat(v, k), repeat(v, k / 2 + 1), repeat(v, k) + b})
            {
                for (ptrdiff_t lim : {PTRDIFF_MAX, K - 1, K, K + 1, -K, -K - 1, 1 - K, K / 2, PTRDIFF_MIN})
                {
                    if (lim == 0)
                        continue;
                    one(c, s, f, "X", lim);
                    one(c, s, f, "", lim);
                }
            }
            one(c, "1" + v + "2" + v, v, repeat("yz", k), PTRDIFF_MAX);
            one(c, "1" + v + "2" + v, v, repeat("yz", k), -1);
        }, 2);
    }
    add_blocks(h, vector<string>{"a", "\xC3"}, block_symbols(true), few_block_symbols(true), [](Ctx& c, const string& s, const string& x, const string& f)
    {
        one(c, s, x, "", PTRDIFF_MAX);
        one(c, s, x, "yz", 1);
        one(c, s, x, x + x, -1);
        one(c, s, f + x, "y", PTRDIFF_MAX);
        c.state();
    });
}
