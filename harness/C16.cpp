// C16: case-insensitive comparison.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"
#include "Ystring/CaseInsensitive.hpp"

using namespace mc;
using namespace ystring;

static int sgn(int64_t v) { return v < 0 ? -1 : v > 0; }

static void one(Ctx& c, char32_t a, char32_t b)
{
    auto x = ref::upper(a), y = ref::upper(b);
    int want = x < y ? -1 : x > y;
    if ((a ^ b) < 64)
        c.outcome(uint64_t(x - y) + 16);
    bool ok = sgn(case_insensitive_compare(a, b)) == want && case_insensitive_equal(a, b) == (want == 0) && case_insensitive_less(a, b) == (want < 0)
              && sgn(CaseInsensitiveCompare()(a, b)) == want && CaseInsensitiveEqual()(a, b) == (want == 0) && CaseInsensitiveLess()(a, b) == (want < 0);
    c.call(6);
    c.state();
    if (!ok)
        c.fail(fmt("code points %s and %s: compare %d equal %d less %d, objects %d %d %d; expected sign %d", show(a).c_str(), show(b).c_str(), int(case_insensitive_compare(a, b)),
                   int(case_insensitive_equal(a, b)), int(case_insensitive_less(a, b)), int(CaseInsensitiveCompare()(a, b)), int(CaseInsensitiveEqual()(a, b)),
                   int(CaseInsensitiveLess()(a, b)), want));
}

static int model(std::u32string_view a, std::u32string_view b)
{
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
    {
        auto x = ref::upper(a[i]), y = ref::upper(b[i]);
        if (x != y)
            return x < y ? -1 : 1;
    }
    return a.size() < b.size() ? -1 : a.size() > b.size();
}

static void strings(Ctx& c, string_view a, string_view b, int want)
{
    c.state();
    c.call(3);
    int got = sgn(case_insensitive::compare(a, b));
    c.outcome(uint64_t(want + 1));
    bool eq = case_insensitive::equal(a, b), lt = case_insensitive::less(a, b);
    if (got != want || eq != (want == 0) || lt != (want < 0))
        c.fail(fmt("%s and %s: sign of compare %d, equal %d, less %d; expected %d", show(a).c_str(), show(b).c_str(), got, int(eq), int(lt), want));
}

static void strings(Ctx& c, const u32string& a, const u32string& b)
{
    auto x = ref::enc(a), y = ref::enc(b);
    int want = model(a, b);
    c.sample([&] { return "compare(" + show(x) + ", " + show(y) + ") has sign " + show(want); });
    strings(c, x, y, want);
    strings(c, y, x, -want);
}

// Every code point that is not its own upper case, or is one's upper case.
static const u32string& cased()
{
    static const u32string r = []
    {
        vector<char> is(ref::MAXCP + 1);
        for (char32_t c = 0; c <= ref::MAXCP; ++c)
        {
            if (ref::upper(c) != c || ref::lower(c) != c || ref::title(c) != c)
                is[c] = is[ref::upper(c)] = is[ref::lower(c)] = is[ref::title(c)] = 1;
        }
        u32string v;
        for (char32_t c = 0; c <= ref::MAXCP; ++c)
        {
            if (is[c])
                v += c;
        }
        return v;
    }();
    return r;
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    h.add("codepoint-neighbours", "every code point against its upper, lower and title case, +-1, +-32, ^1, ^0x20, every single-bit change and 0, 10FFFF", 0x110000 / 256, [](Ctx& c, uint64_t blk)
    {
        for (char32_t a = char32_t(blk * 256); a < (blk + 1) * 256; ++a)
        {
            auto x = [&](char32_t b)
            {
                if (b <= ref::MAXCP)
                    one(c, a, b), one(c, b, a);
            };
            x(a), x(ref::upper(a)), x(ref::lower(a)), x(ref::title(a)), x(a + 1), x(a - 1), x(a + 32), x(a - 32), x(0), x(ref::MAXCP);
            for (int k = 0; k < 21; ++k)
                x(a ^ (1u << k));
            x(ref::upper(a) + 1), x(ref::upper(a) - 1), x(ref::lower(a) + 1), x(ref::lower(a) - 1);
        }
    }, 16);
    {
        auto& v = cased();
        size_t n = v.size();
        h.add("cased-pairs", fmt("all pairs of the %zu code points that take part in any case mapping", n), n, [&v, n](Ctx& c, uint64_t i)
        {
            for (size_t j = i; j < n; ++j)
                one(c, v[i], v[j]), one(c, v[j], v[i]);
        }, 8);
    }
    {
        auto& r = reps();
        h.add("all-against-representatives", fmt("every code point against %zu representatives", r.size()), 0x110000 / 256, [&r](Ctx& c, uint64_t blk)
        {
            for (char32_t a = char32_t(blk * 256); a < (blk + 1) * 256; ++a)
            {
                for (auto b : r)
                    one(c, a, b);
            }
        }, 16);
    }
    {
        auto al = us(T ? U"aAbB[_\u00DF\u1E9E\u017FK\u212A\u00B5\u03BC\u01C4\u01C5\u0131\U00010400\U00010428"s : U"aAB[_\u00DF\u017FK\u212A\u00B5\u03BC\u01C5\U00010428"s);
        StringSpace sp(al, 0, 3);
        auto all = std::make_shared<vector<u32string>>();
        auto enc = std::make_shared<vector<string>>();
        for (uint64_t i = 0; i < sp.count(); ++i)
        {
            enc->push_back(sp.get(i));
            all->push_back(ref::dec(enc->back()));
        }
        h.add("string-pairs", fmt("all ordered pairs of strings of up to 3 of %zu code points with peculiar case", al.size()), all->size(), [=](Ctx& c, uint64_t i)
        {
            for (size_t j = 0; j < all->size(); ++j)
                strings(c, (*enc)[i], (*enc)[j], model((*all)[i], (*all)[j]));
        });
    }
    {
        // all orders agree: sort keys
        auto& r = reps();
        size_t n = r.size();
        h.add("order-axioms", fmt("all triples of %zu representatives wrapped as strings: equal is transitive, less is transitive", n / 2), n / 2, [&r, n](Ctx& c, uint64_t i)
        {
            vector<string> e;
            for (size_t k = 0; k < n; k += 2)
                e.push_back(u(r[k]) + "a");
            auto less = [&](size_t x, size_t y) { return case_insensitive::less(e[x], e[y]); };
            auto equal = [&](size_t x, size_t y) { return case_insensitive::equal(e[x], e[y]); };
            if (i >= e.size())
                return;
            for (size_t j = 0; j < e.size(); ++j)
            {
                bool lij = less(i, j), eij = equal(i, j);
                c.call(2);
                MC_OK(c, int(lij) + int(eij) + int(less(j, i)) == 1, "%s and %s: not exactly one of less, equal, greater", show(e[i]).c_str(), show(e[j]).c_str());
                for (size_t k = 0; k < e.size(); ++k)
                {
                    c.state();
                    if (lij && less(j, k))
                        MC_OK(c, less(i, k), "less is not transitive: %s %s %s", show(e[i]).c_str(), show(e[j]).c_str(), show(e[k]).c_str());
                    if (eij && equal(j, k))
                        MC_OK(c, equal(i, k), "equal is not transitive: %s %s %s", show(e[i]).c_str(), show(e[j]).c_str(), show(e[k]).c_str());
                    c.call();
                }
            }
        }, 2);
    }
    h.add("all-codepoints-in-strings", "every code point in a string against itself in upper, lower and title case, a neighbour, and a longer or shorter string", 0x110000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (char32_t a = char32_t(blk * 64); a < (blk + 1) * 64; ++a)
        {
            u32string p = U"x" + u32string(1, a);
            for (char32_t b : {ref::upper(a), ref::lower(a), ref::title(a), char32_t(a ^ 1), char32_t(a ^ 0x1000)})
            {
                if (b > ref::MAXCP)
                    continue;
                u32string q = U"X" + u32string(1, b);
                strings(c, p, q);
                strings(c, p + U"b", q + U"A");
            }
            strings(c, p, U"X"s);
            strings(c, p + U"\0"s, U"X" + u32string(1, ref::upper(a)));
        }
    }, 16);
    {
        auto ks = pump_counts(T);
        auto vs = vector<std::pair<u32string, u32string>>{{U"a", U"A"}, {U"\u00E9", U"\u00C9"}, {U"\u017F", U"s"}, {U"\u212A", U"k"}, {U"\U00010428", U"\U00010400"}, {U"\u2C65", U"\u023A"}};
        h.add("pumped", fmt("v^k against V^k, V^(k+1) and a differing end for %zu counts k, 6 pairs (v, V)", ks.size()), ks.size() * vs.size(), [=](Ctx& c, uint64_t i)
        {
            auto& [v, w] = vs[i % vs.size()];
            size_t k = ks[i / vs.size()];
            u32string a, b;
            for (size_t j = 0; j < k; ++j)
                a += j % 3 ? v : w, b += w;
            strings(c, a, b);
            strings(c, a, b + w);
            strings(c, a + U"a", b + U"B");
            strings(c, a + U"\u20AC", b + U"C");
        }, 2);
    }
    add_blocks(h, vector<string>{"a", "A"}, block_symbols(), few_block_symbols(), [](Ctx& c, const string& s, const string& x, const string&)
    {
        auto a = ref::dec(s), b = a, l = a;
        for (auto& ch : b)
            ch = ref::upper(ch);
        for (auto& ch : l)
            ch = ref::lower(ch);
        strings(c, a, b);
        strings(c, b, l);
        auto at = a.find(ref::dec(x)[0]);
        for (auto y : {char32_t(a[at] ^ 0x20u), char32_t(a[at] + 1)})
        {
            auto d = b;
            d[at] = y;
            if (y < 0xD800 || (y > 0xDFFF && y <= 0x10FFFF))
                strings(c, a, d);
        }
    });
}
