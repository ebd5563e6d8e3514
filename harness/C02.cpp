// C02: UTF-8 <-> UTF-32, validity, append.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"
#include "Ystring/Utf32.hpp"

using namespace mc;
using namespace ystring;

static void validity(Ctx& c, string_view s)
{
    auto segs = ref::segment(s);
    bool ok = true;
    u32string cps;
    for (auto& g : segs)
    {
        ok = ok && g.ok;
        cps += g.cp;
    }
    c.sample([&] { return "is_valid_utf8/to_utf32 of " + show(s) + (ok ? " (valid)" : " (invalid)"); });
    c.state();
    MC_EQ(c, is_valid_utf8(s), ok, "is_valid_utf8(%s)", show(s).c_str());
    if (ok)
        MC_EQ(c, to_utf32(s), cps, "to_utf32(%s)", show(s).c_str());
    else
        MC_THROWS(c, to_utf32(s), "to_utf32(%s)", show(s).c_str());
    c.outcome(ok ? hash(cps) : 1);
}

static void round_trip(Ctx& c, const u32string& v)
{
    auto s = ref::enc(v);
    c.sample([&] { return "from_utf32(" + show(v) + ") = " + show(s); });
    c.state();
    c.outcome(hash(s));
    MC_EQ(c, from_utf32(std::u32string_view(v)), s, "from_utf32(%s)", show(v).c_str());
    MC_EQ(c, to_utf32(s), v, "to_utf32(%s)", show(s).c_str());
    MC_EQ(c, is_valid_utf8(s), true, "is_valid_utf8(%s)", show(s).c_str());
    string grown;
    for (auto ch : v)
    {
        auto& r = ystring::append(grown, ch);
        MC_OK(c, &r == &grown, "append does not return its argument");
        c.call();
    }
    MC_OK(c, grown == s, "repeated append of %s gives %s", show(v).c_str(), show(grown).c_str());
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    h.add("all-codepoints", "every code point 0..10FFFF alone, and appended to strings of 0 to 40 bytes", 0x110000 / 64,
          [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            auto e = ref::enc(cp);
            round_trip(c, u32string(1, cp));
            MC_EQ(c, from_utf32(cp), e, "from_utf32(%s)", show(cp).c_str());
            size_t n = cp % 41;
            string pre(n, 'x');
            MC_EQ(c, ystring::append(string_view(pre), cp), pre + e, "append(%zu letters, %s)", n, show(cp).c_str());
            string s = pre;
            ystring::append(s, cp);
            MC_EQ(c, s, pre + e, "append(string& of %zu letters, %s)", n, show(cp).c_str());
        }
    }, 8);
    h.add("too-large", T ? "every value above 10FFFF" : "every value 110000..21FFFF, and 4096 low parts with all 2^11 upper 11 bits",
          T ? (0x100000000ull - 0x110000) / 0x10000 : 0x110000 / 0x1000 + 2048, [T](Ctx& c, uint64_t i)
    {
        auto one = [&](char32_t cp)
        {
            string s = "ab\xC3\x84";
            c.state();
            MC_THROWS(c, ystring::append(s, cp), "append(string&, %s)", show(cp).c_str());
            MC_OK(c, s == "ab\xC3\x84", "append(string&, %s) changed the string to %s", show(cp).c_str(), show(s).c_str());
            if (!T || cp % 64 == 0)
                MC_THROWS(c, ystring::append(string_view("ab"), cp), "append(string_view, %s)", show(cp).c_str());
        };
        c.sample([&] { return fmt("append of values above 10FFFF, block %llu", (unsigned long long)i); });
        if (T)
        {
            for (uint64_t v = 0x110000 + i * 0x10000; v < 0x110000 + (i + 1) * 0x10000; ++v)
                one(char32_t(v));
        }
        else if (i < 0x110)
        {
            for (uint64_t v = 0x110000 + i * 0x1000; v < 0x110000 + (i + 1) * 0x1000; ++v)
                one(char32_t(v));
        }
        else
        {
            uint64_t hi = i - 0x110;
            for (uint64_t lo = 0; lo < 0x200000; lo += 0x1FF + (lo & 3))
            {
                uint64_t v = hi << 21 | lo;
                if (v > 0x10FFFF)
                    one(char32_t(v));
            }
            one(0xFFFFFFFF);
        }
    }, 1);
    {
        auto cps = reps();
        for (char32_t x : {0xD800, 0xDBFF, 0xDC00, 0xDFFF})
            cps += x;
        uint64_t n = cps.size();
        h.add("pairs", fmt("all pairs of %llu representative code points", (unsigned long long)n), n * n,
              [=](Ctx& c, uint64_t i) { round_trip(c, u32string{cps[i / n], cps[i % n]}); }, 64);
        u32string few = U"\0a\x7F\u0080\u00DF\u07FF\u0800\u20AC\uFFFF\U00010000\U0001F600\U0010FFFF"s;
        few += char32_t(0xD800);
        few += char32_t(0xDC00);
        Sequences sq{few.size(), 0, T ? 6u : 5u};
        h.add("sequences", fmt("all sequences of up to %u of 14 code points of every length", sq.max_len), sq.count(),
              [=](Ctx& c, uint64_t i)
        {
            vector<unsigned> v;
            sq.get(i, v);
            u32string s;
            for (auto k : v)
                s += few[k];
            round_trip(c, s);
        }, 64);
    }
    {
        StringSpace sp(byte_classes(), 0, T ? 6 : 5);
        h.add("byte-classes", fmt("all byte strings of up to %d bytes over 16 byte classes", T ? 6 : 5), sp.count(),
              [sp](Ctx& c, uint64_t i) { validity(c, sp.get(i)); }, 256);
        h.add("all-bytes", T ? "all 3-byte strings" : "all 3-byte strings (to_utf32 for every second pair)", 65536, [T](Ctx& c, uint64_t i)
        {
            string s = {char(i >> 8), char(i & 255)};
            validity(c, s);
            validity(c, s + s);
            for (int b = 0; b < 256; ++b)
            {
                auto t = s + char(b);
                if (T || i % 4 == 0)
                    validity(c, t);
                else
                    MC_EQ(c, is_valid_utf8(t), ref::valid(t), "is_valid_utf8(%s)", show(t).c_str());
            }
        }, 16);
        h.add("four-byte", "every lead byte F0..F7 with 3 bytes of 32 values each, and overlong and surrogate encodings", 8 * 32 * 32,
              [](Ctx& c, uint64_t i)
        {
            auto pick = [](uint64_t k) { return char(k < 16 ? 0x80 + k * 4 + (k & 3) : k < 24 ? (k - 16) * 16 + (k & 15) : 0xC0 + (k - 24) * 8 + (k & 7)); };
            for (uint64_t k = 0; k < 32; ++k)
            {
                string s{char(0xF0 + i / 1024), pick(i / 32 % 32), pick(i % 32), pick(k)};
                validity(c, s);
                validity(c, "\xE2\x82\xAC" + s);
            }
        }, 16);
    }
    {
        auto ks = pump_counts(T);
        vector<std::array<string, 3>> uvw;
        vector<string> parts = {"", "a", "\xC3\x84", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\x80", "\xE2\x82", "\xFF"};
        for (auto& v : vector<string>{"a", "\xC3\x84", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "a\xC3\x84", "\xF4\x8F\xBF\xBF" "a"})
        {
            for (auto& a : parts)
            {
                for (auto& b : parts)
                    uvw.push_back({a, v, b});
            }
        }
        h.add("pumped", fmt("u v^k w: 8 prefixes and suffixes, 6 repeated parts, %zu values of k up to %zu", ks.size(), ks.back()),
              uvw.size() * ks.size(), [=](Ctx& c, uint64_t i)
        {
            auto& [a, v, b] = uvw[i % uvw.size()];
            size_t k = ks[i / uvw.size()];
            if (k > 300 && (i % uvw.size()) % 7)
                return;
            auto s = a + repeat(v, k) + b;
            validity(c, s);
            if (k < 2000 && ref::valid(s))
                round_trip(c, ref::dec(s));
        }, 4);
    }
    add_blocks(h, vector<string>{"a", "\xC3\x84"}, block_symbols(true), few_block_symbols(true), [](Ctx& c, const string& s, const string&, const string&)
    {
        validity(c, s);
        if (ref::valid(s))
            round_trip(c, ref::dec(s));
    });
}
