// C04: replace_invalid_utf8.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"

using namespace mc;
using namespace ystring;

static string model(string_view s, string_view repl)
{
    string r;
    for (auto& g : ref::segment(s))
        r += g.ok ? s.substr(g.b, g.e - g.b) : repl;
    return r;
}

static void one(Ctx& c, const string& s, char32_t repl)
{
    auto want = model(s, ref::enc(repl));
    c.sample([&] { return "replace_invalid_utf8(" + show(s) + ", " + show(repl) + ") = " + show(want); });
    c.state();
    c.outcome(hash(want));
    auto got = replace_invalid_utf8(string_view(s), repl);
    MC_EQ(c, got, want, "replace_invalid_utf8(%s, %s)", show(s).c_str(), show(repl).c_str());
    MC_OK(c, ref::valid(got), "repaired string is not valid");
    MC_EQ(c, replace_invalid_utf8(string_view(got), repl), got, "repairing %s twice", show(s).c_str());
    if (repl == 0xFFFD)
        MC_EQ(c, replace_invalid_utf8(string_view(s)), want, "replace_invalid_utf8(%s)", show(s).c_str());
    string t = s;
    auto& r = repl == 0xFFFD ? replace_invalid_utf8(t) : replace_invalid_utf8(t, repl);
    MC_OK(c, &r == &t, "the in-place overload does not return its argument");
    MC_EQ(c, t, want, "replace_invalid_utf8(string& %s, %s)", show(s).c_str(), show(repl).c_str());
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    {
        StringSpace sp(byte_classes(), 0, T ? 6 : 5);
        h.add("byte-classes", fmt("all strings of up to %d bytes over 16 byte classes; U+FFFD and one other replacement", T ? 6 : 5), sp.count(),
              [sp](Ctx& c, uint64_t i)
        {
            static const char32_t others[] = {'?', 0x80, 0x10FFFF, 0x7FF};
            auto s = sp.get(i);
            one(c, s, 0xFFFD);
            one(c, s, others[i % 4]);
        }, 256);
    }
    {
        StringSpace sp(bytes({'a', 0x80, 0xC3, 0xE2, 0xF0, 0xFF}), 6, T ? 9 : 8);
        h.add("long-byte-classes", fmt("all strings of 6 to %d bytes over 6 byte classes", T ? 9 : 8), sp.count(),
              [sp](Ctx& c, uint64_t i) { one(c, sp.get(i), i % 2 ? 0xFFFD : '?'); }, 256);
    }
    h.add("all-bytes", T ? "all 3-byte strings" : "all 2-byte strings with 24 different tails", 65536, [T](Ctx& c, uint64_t i)
    {
        string s{char(i >> 8), char(i & 255)};
        one(c, s, 0xFFFD);
        for (int b = 0; b < 256; b += T ? 1 : 11)
            one(c, s + char(b), '?');
    }, 32);
    h.add("all-replacements", "every code point as replacement in strings with 1 and 3 malformed stretches", 0x110000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            one(c, "a\xE2\x82" "b", cp);
            one(c, "\x80\xC3\xC3\x84\xFF", cp);
        }
    }, 8);
    {
        auto ks = pump_counts(T);
        vector<string> ends = {"", "a", "\x80", "\xC3", "\xE2\x82", "\xF0\x9F\x98", "\xFF", "\xE2\x82\xAC"};
        vector<std::array<string, 3>> uvw;
        for (auto& v : vector<string>{"a", "\x80", "\xC3", "\xE2\x82", "\xFF", "a\xFF", "\xC3\x84", "\xF0\x9F\x98\x80\xF0", "\xFF\x80\x80"})
        {
            for (auto& a : ends)
            {
                for (auto& b : ends)
                    uvw.push_back({a, v, b});
            }
        }
        h.add("pumped", fmt("u v^k w: 8 prefixes and suffixes, 9 repeated parts, %zu values of k up to %zu", ks.size(), ks.back()),
              uvw.size() * ks.size(), [=](Ctx& c, uint64_t i)
        {
            auto& [a, v, b] = uvw[i % uvw.size()];
            size_t k = ks[i / uvw.size()];
            if (k > 300 && (i % uvw.size()) % 23)
                return;
            one(c, a + repeat(v, k) + b, k % 2 ? 0xFFFD : '?');
        }, 4);
    }
    add_blocks(h, vector<string>{"a", "\xC3\x84"}, block_symbols(true), few_block_symbols(true), [](Ctx& c, const string& s, const string&, const string&)
    {
        one(c, s, 0xFFFD);
    });
}
