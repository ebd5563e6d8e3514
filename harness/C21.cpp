// C21: composition.
#include <set>
#include "common.hpp"
#include "Ystring/Normalize.hpp"

using namespace mc;
using namespace ystring;

static void text(Ctx& c, const u32string& cps, bool more = true)
{
    auto s = ref::enc(cps), want = ref::enc(ref::compose(cps));
    c.sample([&] { return "to_composed(" + show(s) + ") = " + show(want); });
    c.state();
    MC_EQ(c, to_composed(s), want, "to_composed(%s)", show(s).c_str());
    if (more)
    {
        MC_EQ(c, to_composed(want), want, "to_composed again of %s", show(want).c_str());
        MC_EQ(c, to_decomposed(want), to_decomposed(s), "to_decomposed of the composed form of %s", show(s).c_str());
    }
    c.outcome(hash(want));
}

struct Parts
{
    u32string firsts, seconds;

    Parts()
    {
        std::set<char32_t> f, s;
        for (auto& [c, p] : ref::uni().pair)
            f.insert(p.first), s.insert(p.second);
        firsts.assign(f.begin(), f.end());
        seconds.assign(s.begin(), s.end());
    }
};

static const Parts& parts()
{
    static const Parts p;
    return p;
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    auto& P = parts();
    h.add("codepoints", "every code point alone and its complete decomposition: to_composed gives it back; in front of, after and between composable text", 0x110000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            u32string x(1, cp);
            auto d = ref::decompose(x);
            c.state();
            MC_EQ(c, to_composed(ref::enc(d)), u(cp), "to_composed(%s)", show(d).c_str());
            MC_EQ(c, to_composed(ref::enc(decompose(cp))), u(cp), "to_composed(decompose(%s))", show(cp).c_str());
            text(c, x);
            text(c, U"a" + x + U"\u0301b");
            text(c, U"A\u0308" + x + U"A\u0308");
            text(c, d + d + U"\u0304");
        }
    });
    h.add("first-second", fmt("all %zu first parts with all %zu second parts, alone, and in text", P.firsts.size(), P.seconds.size()), P.firsts.size(), [&P](Ctx& c, uint64_t i)
    {
        for (auto m : P.seconds)
        {
            u32string x{P.firsts[i], m};
            text(c, x);
            text(c, U"x" + x + U"y");
        }
    }, 4);
    h.add("codepoint-second", fmt("every code point with all %zu second parts", P.seconds.size()), 0x110000 / 64, [&P](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            for (auto m : P.seconds)
                text(c, u32string{cp, m}, false);
        }
    });
    h.add("first-codepoint", fmt("all %zu first parts followed by every code point", P.firsts.size()), 0x110000 / 64, [&P](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            for (auto f : P.firsts)
                text(c, u32string{f, cp}, false);
        }
    });
    h.add("first-second-second", "all first parts with all ordered pairs of second parts, and all pairs of first parts with all second parts", P.firsts.size(), [&P](Ctx& c, uint64_t i)
    {
        for (auto m : P.seconds)
        {
            for (auto n : P.seconds)
                text(c, u32string{P.firsts[i], m, n}, false);
            for (auto f : P.firsts)
                text(c, u32string{P.firsts[i], f, m}, false);
        }
    }, 4);
    {
        auto al = us(U"aAs\u0301\u0304\u0307\u0308\u0323\u00C4\u1E69\u03B1\u0313\u0345\u3042\u3099\U00011099\U000110BA\u0915"s);
        StringSpace sp(al, 0, T ? 5 : 4);
        h.add("sequences", fmt("every string of up to %d of 18 code points that combine in chains", T ? 5 : 4), sp.count(), [=](Ctx& c, uint64_t i) { text(c, ref::dec(sp.get(i))); }, 64);
        StringSpace few(us(U"as\u0307\u0323\u0301"), 0, T ? 9 : 7);
        h.add("long-sequences", fmt("every string of up to %d of 5 code points", T ? 9 : 7), few.count(), [=](Ctx& c, uint64_t i) { text(c, ref::dec(few.get(i))); }, 64);
    }
    {
        auto all = std::make_shared<u32string>();
        for (auto& [c, p] : ref::uni().pair)
            *all += c;
        h.add("composite-pairs", fmt("all ordered pairs of the %zu composites, decomposed, and with the second only partly decomposed", all->size()), all->size(), [=](Ctx& c, uint64_t i)
        {
            auto a = ref::decompose(u32string(1, (*all)[i]));
            for (auto b : *all)
                text(c, a + ref::decompose(u32string(1, b)), false);
            for (auto b : *all)
            {
                auto& p = ref::uni().pair.at(b);
                text(c, a + u32string{p.first, p.second, U'z'}, false);
            }
        }, 4);
    }
    {
        StringSpace sp(byte_classes(), 1, T ? 5 : 4);
        h.add("bytes", fmt("all strings of up to %d of 16 byte classes, alone, after a composable pair and after a base: malformed ones throw", T ? 5 : 4), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.state();
            if (ref::valid(s))
            {
                auto d = ref::dec(s);
                if (std::all_of(d.begin(), d.end(), [](auto x) { return x <= ref::MAXCP; }))
                    text(c, d);
                return;
            }
            for (auto& pre : {string(), "A" + u(0x308), "xA"s, "A" + u(0x308) + u(0x304)})
            {
                auto t = pre + s;
                if (!ref::valid(t))
                    MC_THROWS(c, to_composed(t), "to_composed(%s)", show(t).c_str());
            }
        });
    }
    {
        auto ks = pump_counts(T);
        vector<u32string> vs = {U"a", U"A\u0308", U"\u03B1\u0313\u0301\u0345", U"\u0301", U"aA\u0308", U"s\u0323\u0307x"};
        h.add("pumped", fmt("v^k and v^k w for %zu counts k, 6 v", ks.size()), ks.size() * vs.size(), [=](Ctx& c, uint64_t i)
        {
            u32string s;
            for (size_t k = 0; k < ks[i / vs.size()]; ++k)
                s += vs[i % vs.size()];
            text(c, s);
            text(c, s + U"A\u0308");
            text(c, U"A\u0308" + s + U"b");
        }, 2);
    }
    add_blocks(h, vector<string>{"a", "A"}, block_symbols(), few_block_symbols(), [](Ctx& c, const string& s, const string&, const string&)
    {
        text(c, ref::dec(s), false);
    });
}
