// C15: case conversion.
#include "common.hpp"
#include "Ystring/ConvertCase.hpp"

using namespace mc;
using namespace ystring;

static void model(std::u32string_view s, string& lo, string& up, string& ti)
{
    lo.clear();
    up.clear();
    ti.clear();
    bool after_letter = false;
    for (auto ch : s)
    {
        ref::enc_to(lo, ref::lower(ch));
        if (ch == 0xDF)
            up += "SS";
        else
            ref::enc_to(up, ref::upper(ch));
        bool letter = ref::is_letter(ch);
        if (!letter)
            ref::enc_to(ti, ch);
        else if (after_letter)
            ref::enc_to(ti, ref::lower(ch));
        else if (ch == 0xDF)
            ti += "Ss";
        else
            ref::enc_to(ti, ref::title(ch));
        after_letter = letter;
    }
}

static void strings(Ctx& c, const u32string& cps)
{
    string lo, up, ti;
    model(cps, lo, up, ti);
    auto s = ref::enc(cps);
    c.sample([&] { return "to_title(" + show(s) + ") = " + show(ti); });
    c.state();
    MC_EQ(c, to_lower(string_view(s)), lo, "to_lower(%s)", show(s).c_str());
    MC_EQ(c, to_upper(string_view(s)), up, "to_upper(%s)", show(s).c_str());
    MC_EQ(c, to_title(string_view(s)), ti, "to_title(%s)", show(s).c_str());
    c.outcome(hash(lo) ^ hash(up) * 3 ^ hash(ti) * 5);
}

static void malformed(Ctx& c, string_view s)
{
    c.state();
    MC_THROWS(c, to_lower(s), "to_lower(%s)", show(s).c_str());
    MC_THROWS(c, to_upper(s), "to_upper(%s)", show(s).c_str());
    MC_THROWS(c, to_title(s), "to_title(%s)", show(s).c_str());
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    h.add("codepoint", "the three single code point functions for every value 0..1FFFFFF (32 Mi)", 0x2000000 / 4096, [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 4096), n = 0; n < 4096; ++cp, ++n)
        {
            auto lo = to_lower(cp), up = to_upper(cp), ti = to_title(cp);
            if (lo != ref::lower(cp) || up != ref::upper(cp) || ti != ref::title(cp))
                c.fail("lower/upper/title of " + show(cp) + ": got " + show(lo) + " " + show(up) + " " + show(ti) + ", expected " + show(ref::lower(cp)) + " "
                       + show(ref::upper(cp)) + " " + show(ref::title(cp)));
            if (lo != cp || up != cp)
                c.outcome(lo * 7919ull + up);
        }
        c.state(4096);
        c.call(3 * 4096);
    }, 16);
    {
        // High values whose low bits are those of a letter.
        uint64_t step = T ? 1 : 0x1000;
        uint64_t blocks = T ? (0x100000000ull - 0x2000000) / 0x10000 : 32 * 128;
        h.add("large-values", T ? "every 32-bit value from 2000000" : "every 2^k (k = 21..31) plus/or-ed over 0..FFFF and the 2^16 values at each end of every 2^25 block", blocks,
              [T, step](Ctx& c, uint64_t blk)
        {
            (void)step;
            char32_t base;
            uint32_t n = 0x10000;
            if (T)
                base = char32_t(0x2000000 + blk * 0x10000);
            else
            {
                // 128 blocks of 2^25; 32 pieces of 2^12 each: 16 at the start, 16 at the end
                uint64_t b = blk / 32, p = blk % 32;
                base = char32_t(b * 0x2000000 + (p < 16 ? p * 0x1000 : 0x2000000 - (p - 15) * 0x1000));
                n = 0x1000;
                if (b == 0)
                    base |= 0x200000;
            }
            for (uint32_t i = 0; i < n; ++i)
            {
                char32_t cp = base + i;
                if (to_lower(cp) != cp || to_upper(cp) != cp || to_title(cp) != cp)
                    c.fail("lower/upper/title of " + show(cp) + ": got " + show(to_lower(cp)) + " " + show(to_upper(cp)) + " " + show(to_title(cp)));
            }
            c.state(n);
            c.call(3 * n);
        }, 8);
    }
    h.add("all-codepoints-in-context", "every code point alone, after a letter, after a non-letter, after a mark, before a letter, twice, and around U+00DF", 0x110000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            u32string x(1, cp);
            strings(c, x);
            strings(c, U"a" + x + U"B");
            strings(c, U"\u4E2D" + x + U" " + x);
            strings(c, U"1" + x + x + U"\u00C9");
            strings(c, U"b\u0301" + x + U"z");
            strings(c, U"\u00DF" + x + U"\u00DF");
            strings(c, x + U"\u01C6");
        }
    }, 16);
    {
        auto al = us(U"aB \u00DF\u1E9E\u01C5\u0301\u4E2D\u0131\u017F'9\u2160\u24B6\U00010428\u10D0");
        StringSpace sp(al, 0, T ? 5 : 4);
        h.add("strings", fmt("all strings of up to %d of 16 code points with peculiar case (title-case digraphs, sharp s, marks, uncased letters, cased non-letters)", T ? 5 : 4), sp.count(),
              [=](Ctx& c, uint64_t i) { strings(c, ref::dec(sp.get(i))); });
    }
    {
        auto& r = reps();
        size_t n = r.size();
        h.add("pairs", fmt("all pairs of %zu representatives, with a third of 6", n), n * n, [&r, n](Ctx& c, uint64_t i)
        {
            for (char32_t t : U"a \u00DF\u0301\u01C4Z"sv)
                strings(c, u32string{r[i / n], r[i % n], t});
        });
    }
    {
        StringSpace sp(byte_classes(), 1, T ? 5 : 4);
        h.add("bytes", fmt("all strings of up to %d of 16 byte classes: malformed ones throw", T ? 5 : 4), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            if (!ref::valid(s))
                return malformed(c, s);
            auto d = ref::dec(s);
            for (auto ch : d)
            {
                if (ch > ref::MAXCP)
                    return;
            }
            strings(c, d);
        });
    }
    {
        auto ks = pump_counts(T);
        auto vs = vector<u32string>{U"a", U"\u00DF", U"\u0131", U"\u017F", U"\u2C65", U"\u023A", U"a ", U"\U00010400", U"\u0301"};
        h.add("pumped", fmt("u v^k w for %zu counts k and 9 v (mappings that grow and shrink)", ks.size()), ks.size() * vs.size(), [=](Ctx& c, uint64_t i)
        {
            auto& v = vs[i % vs.size()];
            size_t k = ks[i / vs.size()];
            u32string s = U"a";
            for (size_t j = 0; j < k; ++j)
                s += v;
            strings(c, s + U"\u00DF b");
            strings(c, s.substr(1) + U"Q");
            auto e = ref::enc(s);
            malformed(c, e + "\xC3");
            malformed(c, e + "\x80" "a");
        }, 2);
    }
    add_blocks(h, vector<string>{"a", "A", " "}, block_symbols(), few_block_symbols(), [](Ctx& c, const string& s, const string&, const string&)
    {
        strings(c, ref::dec(s));
    });
}
