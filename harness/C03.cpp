// C03: stepping over any byte string.
#include <forward_list>
#include <list>
#include "common.hpp"
#include "Ystring/Algorithms.hpp"
#include "Ystring/DecodeUtf8.hpp"

using namespace mc;
using namespace ystring;

template <typename Seq>
static void walk(Ctx& c, string_view s, const vector<ref::Seg>& segs, const Seq& seq)
{
    auto begin = seq.begin(), end = seq.end();
    auto it = begin;
    size_t at = 0;
    for (auto& g : segs)
    {
        MC_EQ(c, skip_next(it, end), true, "skip_next(%s at %zu)", show(s).c_str(), at);
        at = size_t(std::distance(begin, it));
        MC_OK(c, at == g.e, "skip_next(%s at %zu) stops at %zu, expected %zu", show(s).c_str(), g.b, at, g.e);
        c.state();
    }
    MC_EQ(c, skip_next(it, end), false, "skip_next(%s at its end)", show(s).c_str());
    MC_OK(c, it == end, "skip_next moved beyond the end of %s", show(s).c_str());
    for (size_t k = segs.size(); k-- > 0;)
    {
        auto from = size_t(std::distance(begin, it));
        MC_EQ(c, skip_prev(begin, it), true, "skip_prev(%s at %zu)", show(s).c_str(), from);
        at = size_t(std::distance(begin, it));
        MC_OK(c, at == segs[k].b, "skip_prev(%s at %zu) stops at %zu, expected %zu", show(s).c_str(), from, at, segs[k].b);
        c.state();
    }
    MC_EQ(c, skip_prev(begin, it), false, "skip_prev(%s at its start)", show(s).c_str());
    MC_OK(c, it == begin, "skip_prev moved beyond the start of %s", show(s).c_str());
}

static void all(Ctx& c, string_view s, bool lists, bool cuts = true)
{
    auto segs = ref::segment(s);
    c.sample([&] { return fmt("stepping over %s: %zu steps", show(s).c_str(), segs.size()); });
    c.outcome(segs.size() * 1000 + (segs.empty() ? 0 : segs.back().b * 7 + segs[0].e));
    walk(c, s, segs, s);
    if (lists)
    {
#ifndef YS_NO_LIST
        std::list<char> l(s.begin(), s.end());
        walk(c, s, segs, l);
#endif
#ifndef YS_NO_FORWARD
        std::forward_list<char> f(s.begin(), s.end());
        auto it = f.begin();
        for (auto& g : segs)
        {
            MC_EQ(c, skip_next(it, f.end()), true, "skip_next(forward list %s at %zu)", show(s).c_str(), g.b);
            MC_EQ(c, size_t(std::distance(f.begin(), it)), g.e, "skip_next(forward list %s at %zu)", show(s).c_str(), g.b);
        }
        MC_EQ(c, skip_next(it, f.end()), false, "skip_next(forward list %s at the end)", show(s).c_str());
#endif
        vector<uint8_t> v(s.begin(), s.end());
        walk(c, s, segs, v);
    }
    MC_EQ(c, count_codepoints(s), segs.size(), "count_codepoints(%s)", show(s).c_str());
    auto v = s;
    for (auto& g : segs)
    {
        MC_EQ(c, remove_utf8_codepoint(v), true, "remove_utf8_codepoint(%s)", show(s.substr(g.b)).c_str());
        MC_OK(c, v.data() == s.data() + g.e && v.size() == s.size() - g.e, "remove_utf8_codepoint(%s): %zu bytes left",
              show(s.substr(g.b)).c_str(), v.size());
    }
    MC_EQ(c, remove_utf8_codepoint(v), false, "remove_utf8_codepoint(empty)");
    v = s;
    for (size_t k = segs.size(); k-- > 0;)
    {
        MC_EQ(c, remove_last_utf8_codepoint(v), true, "remove_last_utf8_codepoint(%s)", show(s.substr(0, segs[k].e)).c_str());
        MC_OK(c, v.data() == s.data() && v.size() == segs[k].b, "remove_last_utf8_codepoint(%s): %zu bytes left",
              show(s.substr(0, segs[k].e)).c_str(), v.size());
    }
    MC_EQ(c, remove_last_utf8_codepoint(v), false, "remove_last_utf8_codepoint(empty)");
    if (!cuts)
        return;
    // Every suffix and prefix is itself a byte string.
    for (size_t i = 1; i < s.size(); ++i)
    {
        auto it = s.begin() + i;
        skip_next(it, s.end());
        auto e = i + ref::segment(s.substr(i))[0].e;
        MC_EQ(c, size_t(it - s.begin()), e, "skip_next(%s at %zu)", show(s).c_str(), i);
        it = s.begin() + i;
        skip_prev(s.begin(), it);
        auto b = ref::segment(s.substr(0, i)).back().b;
        MC_EQ(c, size_t(it - s.begin()), b, "skip_prev(%s at %zu)", show(s).c_str(), i);
    }
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    {
        StringSpace sp(byte_classes(), 0, T ? 6 : 5);
        h.add("byte-classes", fmt("all strings of up to %d bytes over 16 byte classes", T ? 6 : 5), sp.count(),
              [sp](Ctx& c, uint64_t i) { all(c, sp.get(i), i < 200000); }, 256);
    }
    {
        StringSpace sp(bytes({'a', 0x80, 0xC3, 0xE2, 0xF0, 0xFF}), 6, T ? 10 : 8);
        h.add("long-byte-classes", fmt("all strings of 6 to %d bytes over 6 byte classes", T ? 10 : 8), sp.count(),
              [sp](Ctx& c, uint64_t i) { all(c, sp.get(i), false); }, 256);
    }
    h.add("all-bytes", "all byte strings of 1 and 2 bytes with 3 different tails, and all 3-byte strings", 256 + 65536, [](Ctx& c, uint64_t i)
    {
        string s = i < 256 ? string(1, char(i)) : string{char((i - 256) >> 8), char((i - 256) & 255)};
        for (auto t : {"", "\x80", "\x80\x80\x80\x80", "a"})
            all(c, s + t, false);
        if (i >= 256)
        {
            for (int b = 0; b < 256; ++b)
                all(c, s + char(b), false, false);
        }
    }, 16);
    {
        auto ks = pump_counts(T);
        auto syms = bytes({'a', 0x80, 0xC3, 0xE2, 0xF0, 0xFF});
        vector<string> ends = concat(syms, vector<string>{"", "\xC3\x84", "\xE2\x82\xAC", "\xE2\x82", "\xF0\x9F\x98"});
        vector<std::array<string, 3>> uvw;
        for (auto& v : concat(syms, vector<string>{"\xC3\x84", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xF0\x9F\x98", "\xC3\xA4\xA4"}))
        {
            for (auto& a : ends)
            {
                for (auto& b : ends)
                    uvw.push_back({a, v, b});
            }
        }
        h.add("pumped", fmt("u v^k w: 11 prefixes and suffixes, 11 repeated parts, %zu values of k up to %zu", ks.size(), ks.back()),
              uvw.size() * ks.size(), [=](Ctx& c, uint64_t i)
        {
            auto& [a, v, b] = uvw[i % uvw.size()];
            size_t k = ks[i / uvw.size()];
            if (k > 300 && (i % uvw.size()) % 23)
                return;
            if (!T && k > 40 && k < 300 && (i % uvw.size()) % 5 != k % 5)
                return;
            all(c, a + repeat(v, k) + b, false, false);
        }, 4);
    }
    add_blocks(h, vector<string>{"a", "\xC3\x84"}, block_symbols(true), few_block_symbols(true), [](Ctx& c, const string& s, const string&, const string&)
    {
        all(c, s, false, false);
    });
}
