// C20: decomposition.
#include "common.hpp"
#include "Ystring/Normalize.hpp"

using namespace mc;
using namespace ystring;

static void text(Ctx& c, const u32string& cps)
{
    auto s = ref::enc(cps), want = ref::enc(ref::decompose(cps));
    c.sample([&] { return "to_decomposed(" + show(s) + ") = " + show(want); });
    c.state();
    MC_EQ(c, to_decomposed(s), want, "to_decomposed(%s)", show(s).c_str());
    MC_EQ(c, to_decomposed(want), want, "to_decomposed again of %s", show(want).c_str());
    c.outcome(hash(want));
}

// Representatives of every depth and shape of expansion.
static const u32string& shapes()
{
    static const u32string r = []
    {
        u32string v = U"a\u0300\u4E2D\U0001F600"s;
        std::map<std::array<size_t, 4>, int> seen;
        for (auto& [c, p] : ref::uni().pair)
        {
            auto d = ref::decompose(u32string(1, c));
            if (seen[{d.size(), u(c).size(), u(d[0]).size(), u(d.back()).size()}]++ < 2)
                v += c;
        }
        return v;
    }();
    return r;
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    h.add("codepoints", "decompose for every value 0..1FFFFF, and to_decomposed of every code point alone and between letters and composites", 0x200000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            u32string want;
            ref::decompose_to(cp, want);
            c.state();
            MC_EQ(c, decompose(cp), want, "decompose(%s)", show(cp).c_str());
            if (cp > ref::MAXCP)
                continue;
            u32string x(1, cp);
            text(c, x);
            text(c, U"a" + x + U"b");
            text(c, U"\u1F82" + x + U"\u00C4");
            text(c, x + x + U"\u4E2D" + x);
        }
    });
    {
        uint64_t blocks = T ? 0x10000 - 0x20 : 0x400;
        h.add("large-values", T ? "decompose for every value from 200000 to FFFFFFFF" : "decompose for the low 2^16 values of every 2^22 block, and with every composite's bits", blocks, [T](Ctx& c, uint64_t blk)
        {
            uint64_t a = T ? 0x200000 + blk * 0x10000 : blk * 0x400000;
            auto one = [&](char32_t cp)
            {
                auto d = decompose(cp);
                if (d.size() != 1 || d[0] != cp)
                    c.fail("decompose(" + show(cp) + "): got " + show(d));
                c.call();
                c.state();
            };
            for (uint64_t v = a; v < a + 0x10000; ++v)
            {
                if (v > ref::MAXCP)
                    one(char32_t(v));
            }
            if (!T && blk)
            {
                for (auto& [cp, p] : ref::uni().pair)
                    one(char32_t(a) | cp);
            }
        }, 4);
    }
    {
        auto& v = shapes();
        size_t n = v.size();
        unsigned len = 3;
        auto syms = std::make_shared<StringSpace>(us(v), 0, len);
        h.add("sequences", fmt("every string of up to %u of %zu code points: every number of parts and encoded length of composite, base and mark", len, n), syms->count(),
              [=](Ctx& c, uint64_t i) { text(c, ref::dec(syms->get(i))); }, 64);
        StringSpace few(us(U"a\u00C4\u1E69\u1F82\U0001109A\u0301"), 0, T ? 8 : 7);
        h.add("long-sequences", fmt("every string of up to %d of 6 code points that expand to 1-4", T ? 8 : 7), few.count(), [=](Ctx& c, uint64_t i) { text(c, ref::dec(few.get(i))); }, 64);
    }
    {
        auto all = std::make_shared<u32string>();
        for (auto& [c, p] : ref::uni().pair)
            *all += c;
        h.add("composite-pairs", fmt("all ordered pairs of the %zu composites", all->size()), all->size(), [=](Ctx& c, uint64_t i)
        {
            for (auto b : *all)
                text(c, u32string{(*all)[i], b});
        }, 4);
    }
    {
        StringSpace sp(byte_classes(), 1, T ? 5 : 4);
        h.add("bytes", fmt("all strings of up to %d of 16 byte classes, alone and after a composite: malformed ones throw", T ? 5 : 4), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.state();
            if (ref::valid(s))
            {
                auto d = ref::dec(s);
                if (std::all_of(d.begin(), d.end(), [](auto x) { return x <= ref::MAXCP; }))
                    text(c, d);
                return;
            }
            MC_THROWS(c, to_decomposed(s), "to_decomposed(%s)", show(s).c_str());
            auto t = u(0x1E69) + s;
            MC_THROWS(c, to_decomposed(t), "to_decomposed(%s)", show(t).c_str());
        });
    }
    {
        auto ks = pump_counts(T);
        vector<u32string> vs = {U"a", U"\u00C4", U"\u1F82", U"\u0301", U"a\u00C4", U"\u1E69x"};
        h.add("pumped", fmt("v^k and v^k w for %zu counts k, 6 v", ks.size()), ks.size() * vs.size(), [=](Ctx& c, uint64_t i)
        {
            u32string s;
            for (size_t k = 0; k < ks[i / vs.size()]; ++k)
                s += vs[i % vs.size()];
            text(c, s);
            text(c, s + U"\u1F82");
            text(c, U"\u1F82" + s + U"b");
        }, 2);
    }
    add_blocks(h, vector<string>{"a", "\xC3\xA4"}, block_symbols(), few_block_symbols(), [](Ctx& c, const string& s, const string&, const string&)
    {
        text(c, ref::dec(s));
    });
}
