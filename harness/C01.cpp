// C01: decoding one code point, forwards and backwards, at every position.
#include <list>
#include "common.hpp"
#include "Ystring/DecodeUtf8.hpp"

using namespace mc;
using namespace ystring;

// The code point of the complete sequence that starts at i, and its end.
static std::pair<char32_t, size_t> start_at(string_view s, size_t i)
{
    if (i >= s.size())
        return {ref::INVALID, i};
    int n = ref::need((unsigned char)s[i]);
    if (n < 0 || i + size_t(n) + 1 > s.size())
        return {ref::INVALID, i};
    auto g = ref::segment(s.substr(i, size_t(n) + 1));
    if (g.size() != 1 || !g[0].ok)
        return {ref::INVALID, i};
    return {g[0].cp, i + size_t(n) + 1};
}

// The code point of the complete sequence that ends at i, and its start.
static std::pair<char32_t, size_t> end_at(string_view s, size_t i)
{
    for (size_t n = 1; n <= 4 && n <= i; ++n)
    {
        auto [cp, e] = start_at(s.substr(0, i), i - n);
        if (cp != ref::INVALID && e == i)
            return {cp, i - n};
    }
    return {ref::INVALID, i};
}

template <typename Seq>
static void positions(Ctx& c, string_view s, const Seq& seq)
{
    auto begin = seq.begin(), end = seq.end();
    auto pos = begin;
    for (size_t i = 0;; ++i, ++pos)
    {
        auto [cp, e] = start_at(s, i);
        auto it = pos;
        MC_EQ(c, decode_next(it, end), cp, "decode_next(%s at %zu)", show(s).c_str(), i);
        MC_OK(c, size_t(std::distance(begin, it)) == e, "decode_next(%s at %zu): cursor at %zu, expected %zu",
              show(s).c_str(), i, size_t(std::distance(begin, it)), e);
        auto [pp, b] = end_at(s, i);
        it = pos;
        MC_EQ(c, decode_prev(begin, it), pp, "decode_prev(%s at %zu)", show(s).c_str(), i);
        MC_OK(c, size_t(std::distance(begin, it)) == b, "decode_prev(%s at %zu): cursor at %zu, expected %zu",
              show(s).c_str(), i, size_t(std::distance(begin, it)), b);

        for (int dir = 0; dir < 2; ++dir)
        {
            const char* name = dir ? "safe_decode_prev" : "safe_decode_next";
            it = pos;
            char32_t ch = 0xABCDEF;
            int r;
            try
            {
                r = dir ? safe_decode_prev(begin, it, ch) : safe_decode_next(it, end, ch);
            }
            catch (const YstringException&)
            {
                r = 2;
            }
            bool none = dir ? i == 0 : i == s.size();
            auto want = dir ? pp : cp;
            int wr = none ? 0 : want == ref::INVALID ? 2 : 1;
            MC_EQ(c, r, wr, "%s(%s at %zu) (0 nothing left, 1 decoded, 2 threw)", name, show(s).c_str(), i);
            MC_OK(c, size_t(std::distance(begin, it)) == (dir ? b : e), "%s(%s at %zu): wrong cursor %zu", name,
                  show(s).c_str(), i, size_t(std::distance(begin, it)));
            if (r == 1)
                MC_OK(c, ch == want, "%s(%s at %zu): got %s", name, show(s).c_str(), i, show(ch).c_str());
        }
        c.outcome(cp * 31 + pp * 7 + e - i + 8 * (i - b));
        c.state();
        if (i == s.size())
            break;
    }
}

static void views(Ctx& c, string_view s)
{
    for (size_t i = 0; i <= s.size(); ++i)
    {
        {
            auto v = s.substr(i);
            auto [cp, e] = start_at(s, i);
            int r = 0;
            char32_t got = 0;
            try
            {
                if (auto o = pop_utf8_codepoint(v))
                    r = 1, got = *o;
            }
            catch (const YstringException&)
            {
                r = 2;
            }
            int wr = i == s.size() ? 0 : cp == ref::INVALID ? 2 : 1;
            MC_EQ(c, r, wr, "pop_utf8_codepoint(%s)", show(s.substr(i)).c_str());
            MC_OK(c, r != 1 || got == cp, "pop_utf8_codepoint(%s): got %s", show(s.substr(i)).c_str(), show(got).c_str());
            MC_OK(c, v.data() == s.data() + e && v.size() == s.size() - e,
                  "pop_utf8_codepoint(%s): view moved wrongly (%zu bytes left)", show(s.substr(i)).c_str(), v.size());
        }
        {
            auto v = s.substr(0, i);
            auto [cp, b] = end_at(s, i);
            int r = 0;
            char32_t got = 0;
            try
            {
                if (auto o = pop_last_utf8_codepoint(v))
                    r = 1, got = *o;
            }
            catch (const YstringException&)
            {
                r = 2;
            }
            int wr = i == 0 ? 0 : cp == ref::INVALID ? 2 : 1;
            MC_EQ(c, r, wr, "pop_last_utf8_codepoint(%s)", show(s.substr(0, i)).c_str());
            MC_OK(c, r != 1 || got == cp, "pop_last_utf8_codepoint(%s): got %s", show(s.substr(0, i)).c_str(), show(got).c_str());
            MC_OK(c, v.data() == s.data() && v.size() == b,
                  "pop_last_utf8_codepoint(%s): view moved wrongly (%zu bytes left)", show(s.substr(0, i)).c_str(), v.size());
        }
    }
}

static void all(Ctx& c, string_view s, bool lists)
{
    c.sample([&] { return "decode at every position of " + show(s); });
    positions(c, s, s);
    views(c, s);
    if (lists)
    {
#ifndef YS_NO_LIST
        std::list<char> l(s.begin(), s.end());
        positions(c, s, l);
#endif
        vector<uint8_t> v(s.begin(), s.end());
        positions(c, s, v);
        std::u8string u8(s.begin(), s.end());
        positions(c, s, std::u8string_view(u8));
    }
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    {
        StringSpace sp(byte_classes(), 0, T ? 6 : 5);
        h.add("byte-classes", T ? "all strings of up to 6 bytes over 16 byte classes" : "all strings of up to 5 bytes over 16 byte classes",
              sp.count(), [sp](Ctx& c, uint64_t i) { all(c, sp.get(i), i < 300000); }, 256);
    }
    {
        StringSpace sp(bytes({'a', 0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0xFF}), 6, T ? 9 : 7);
        h.add("long-byte-classes", "all strings of 6 to 7 (thorough: 9) bytes over 7 byte classes", sp.count(),
              [sp](Ctx& c, uint64_t i) { all(c, sp.get(i), false); }, 256);
    }
    h.add("all-bytes", T ? "all strings of 1 and 2 bytes, alone and between letters; all 3-byte strings" : "all strings of 1 and 2 bytes, alone and between letters; all 2-byte strings followed by one of 16 byte classes", 257 + 65536, [T](Ctx& c, uint64_t i)
    {
        string s;
        if (i < 257)
        {
            if (i < 256)
                s = string(1, char(i));
            all(c, s, true);
            all(c, "x" + s + "y", true);
            return;
        }
        i -= 257;
        s = string(1, char(i >> 8)) + char(i & 255);
        all(c, s, true);
        all(c, "x" + s + "y", false);
        static const auto cls = byte_classes();
        for (int b = 0; b < (T ? 256 : 16); ++b)
            all(c, T ? s + char(b) : s + cls[size_t(b)], false);
    }, 8);
    h.add("all-codepoints", "every value 0..1FFFFF in every structurally well-formed length (also overlong), alone, after a letter and before a letter",
          0x200000 / 256, [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 256); cp < (blk + 1) * 256; ++cp)
        {
            for (int n = 2; n <= 4; ++n)
            {
                static const char32_t lim[5] = {0, 0x80, 0x800, 0x10000, 0x200000};
                if (cp >= lim[n])
                    continue;
                string s;
                static const unsigned lead[5] = {0, 0, 0xC0, 0xE0, 0xF0};
                s += char(lead[n] | (cp >> (6 * (n - 1))));
                for (int k = n - 2; k >= 0; --k)
                    s += char(0x80 | ((cp >> (6 * k)) & 0x3F));
                c.sample([&] { return "decode " + show(s) + " as " + show(cp); });
                for (int ctx = 0; ctx < 3; ++ctx)
                {
                    string t = (ctx == 1 ? "a" : "") + s + (ctx == 2 ? "a" : "");
                    size_t b = ctx == 1, e = b + s.size();
                    string_view sv(t);
                    auto it = sv.begin() + b;
                    MC_EQ(c, decode_next(it, sv.end()), cp, "decode_next(%s)", show(s).c_str());
                    MC_OK(c, it == sv.begin() + e, "decode_next(%s): wrong cursor", show(t).c_str());
                    MC_EQ(c, decode_prev(sv.begin(), it), cp, "decode_prev(%s)", show(s).c_str());
                    MC_OK(c, it == sv.begin() + b, "decode_prev(%s): wrong cursor", show(t).c_str());
                    auto v = sv.substr(b);
                    MC_OK(c, pop_utf8_codepoint(v) == cp && v.size() == t.size() - e, "pop_utf8_codepoint(%s)", show(t).c_str());
                    v = sv.substr(0, e);
                    MC_OK(c, pop_last_utf8_codepoint(v) == cp && v.size() == b, "pop_last_utf8_codepoint(%s)", show(t).c_str());
                }
                c.outcome(cp);
                c.state();
            }
        }
    }, 8);
    {
        auto ks = pump_counts(T);
        auto syms = bytes({'a', 0x80, 0xC3, 0xE2, 0xF0, 0xFF});
        vector<std::array<string, 3>> uvw;
        vector<string> ends = concat(syms, vector<string>{"", "\xC3\x84", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xE2\x82", "\xF0\x9F\x98"});
        for (auto& v : concat(syms, vector<string>{"\xC3\x84", "\xE2\x82\xAC", "\xF0\x9F\x98\x80"}))
        {
            for (auto& a : ends)
            {
                for (auto& b : ends)
                    uvw.push_back({a, v, b});
            }
        }
        h.add("pumped", fmt("u v^k w: 12 prefixes and suffixes, 9 repeated parts, k in %zu counts up to %zu; decoding at and around every seam",
                            ks.size(), ks.back()),
              uvw.size() * ks.size(), [=](Ctx& c, uint64_t i)
        {
            auto& [a, v, b] = uvw[i % uvw.size()];
            size_t k = ks[i / uvw.size()];
            if (k > 5000 && i % 7)
                return;
            string s = a + repeat(v, k) + b;
            string_view sv(s);
            c.sample([&] { return fmt("%s + %s x %zu + %s", show(a).c_str(), show(v).c_str(), k, show(b).c_str()); });
            vector<size_t> at = {0, a.size(), a.size() + v.size() * k, s.size()};
            for (size_t p : vector<size_t>(at))
            {
                for (size_t d = 1; d <= 4; ++d)
                {
                    if (p >= d)
                        at.push_back(p - d);
                    if (p + d <= s.size())
                        at.push_back(p + d);
                }
            }
            for (size_t p : at)
            {
                if (p > s.size())
                    continue;
                c.state();
                auto [cp, e] = start_at(sv, p);
                auto it = sv.begin() + p;
                MC_EQ(c, decode_next(it, sv.end()), cp, "decode_next(%s at %zu)", show(s).c_str(), p);
                MC_OK(c, size_t(it - sv.begin()) == e, "decode_next(%s at %zu): wrong cursor", show(s).c_str(), p);
                auto [pp, q] = end_at(sv, p);
                it = sv.begin() + p;
                MC_EQ(c, decode_prev(sv.begin(), it), pp, "decode_prev(%s at %zu)", show(s).c_str(), p);
                MC_OK(c, size_t(it - sv.begin()) == q, "decode_prev(%s at %zu): wrong cursor", show(s).c_str(), p);
                c.outcome(cp + pp * 3);
            }
        }, 4);
    }
}
