// C06: index lookup and substrings.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"

using namespace mc;
using namespace ystring;

static vector<ptrdiff_t> indices(size_t n, bool deep)
{
    auto N = ptrdiff_t(n);
    vector<ptrdiff_t> r;
    for (ptrdiff_t i = -N - 2; i <= N + 2; ++i)
    {
        if (deep || i < -N + 2 || i > N - 3 || (i > -4 && i < 4) || i == N / 2 || i == -N / 2)
            r.push_back(i);
    }
    r.push_back(PTRDIFF_MAX);
    r.push_back(PTRDIFF_MIN);
    return r;
}

static void sub(Ctx& c, string_view s, const vector<ref::Span>& u, ptrdiff_t a, ptrdiff_t b, bool chars)
{
    auto [first, last] = ref::slice(u.size(), a, b);
    string_view want = first == last ? string_view() : s.substr(u[first].b, u[last - 1].e - u[first].b);
    const char* name = chars ? "get_char_substring" : "get_codepoint_substring";
    auto got = chars ? get_char_substring(s, a, b) : get_codepoint_substring(s, a, b);
    MC_EQ(c, got, want, "%s(%s, %td, %td)", name, show(s).c_str(), a, b);
    if (!want.empty())
        MC_OK(c, got.data() == want.data(), "%s(%s, %td, %td): not the addressed part of the argument", name, show(s).c_str(), a, b);
    c.outcome(hash(got));
    if (b == PTRDIFF_MAX)
    {
        got = chars ? get_char_substring(s, a) : get_codepoint_substring(s, a);
        MC_EQ(c, got, want, "%s(%s, %td)", name, show(s).c_str(), a);
    }
}

static void lookup(Ctx& c, string_view s, const vector<ref::Seg>& segs, ptrdiff_t i)
{
    auto N = ptrdiff_t(segs.size());
    ptrdiff_t k = i < 0 ? (i < -N ? -1 : N + i) : i;
    size_t pos = k < 0 || k > N ? SIZE_MAX : k == N ? s.size() : segs[size_t(k)].b;
    MC_EQ(c, get_codepoint_pos(s, i), pos, "get_codepoint_pos(%s, %td)", show(s).c_str(), i);
    auto [r, ch] = get_codepoint(s, i);
    c.call();
    if (k < 0 || k >= N)
        MC_OK(c, !r && r.length == 0 && ch == INVALID_CHAR, "get_codepoint(%s, %td): got %s %s, expected nothing", show(s).c_str(), i,
              show(r).c_str(), show(ch).c_str());
    else
        MC_OK(c, is_range(r, segs[size_t(k)].b, segs[size_t(k)].e) && ch == segs[size_t(k)].cp, "get_codepoint(%s, %td): got %s %s",
              show(s).c_str(), i, show(r).c_str(), show(ch).c_str());
}

static void all(Ctx& c, const string& str, bool deep = true)
{
    string_view s(str);
    auto segs = ref::segment(s);
    auto cps = ref::codepoints(s), chars = ref::characters(s);
    c.sample([&] { return fmt("all slices of %s (%zu code points, %zu characters)", show(str).c_str(), cps.size(), chars.size()); });
    for (auto i : indices(segs.size(), deep))
        lookup(c, s, segs, i);
    auto ic = indices(cps.size(), deep);
    for (auto a : ic)
    {
        for (auto b : ic)
        {
            sub(c, s, cps, a, b, false);
            c.state();
        }
    }
    ic = indices(chars.size(), deep);
    for (auto a : ic)
    {
        for (auto b : ic)
            sub(c, s, chars, a, b, true);
    }
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    {
        StringSpace sp(us(U"a\u0301\u00E9\u20AC\U0001F600\U0001D165"), 0, T ? 7 : 6);
        h.add("strings", fmt("all strings of up to %d of 6 code points of 1-4 bytes (two are marks), all pairs of start and end in -n-2..n+2 and both extremes",
                             T ? 7 : 6), sp.count(), [sp](Ctx& c, uint64_t i) { all(c, sp.get(i)); }, 16);
    }
    {
        StringSpace sp(us(U"a\u0301\u20AC"), 7, T ? 9 : 8);
        h.add("long-strings", fmt("all strings of 7 to %d of 3 code points", T ? 9 : 8), sp.count(), [sp](Ctx& c, uint64_t i) { all(c, sp.get(i)); }, 16);
    }
    h.add("all-codepoints", "every code point between others: 'a' X 'b' X", 0x110000 / 64, [](Ctx& c, uint64_t blk)
    {
        static const ptrdiff_t ix[] = {-4, -3, -2, -1, 0, 1, 2, 3, PTRDIFF_MAX};
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            auto s = "a" + u(cp) + "b" + u(cp);
            auto segs = ref::segment(s);
            auto cps = ref::codepoints(s), chars = ref::characters(s);
            c.state();
            for (auto a : ix)
            {
                lookup(c, s, segs, a);
                sub(c, s, cps, a, (cp + size_t(a)) % 9 - 4, false);
                sub(c, s, chars, a, (cp + size_t(a)) % 9 - 4, true);
            }
        }
    }, 8);
    {
        auto ks = pump_counts(T);
        vector<string> ends = {"", "a", u(0x301), u(0x1F600)};
        vector<std::array<string, 3>> uvw;
        for (auto& v : vector<string>{"a", u(0x301), u(0x20AC), "a" + u(0x301), u(0x1F600), u(0xE9) + "a"})
        {
            for (auto& a : ends)
            {
                for (auto& b : ends)
                    uvw.push_back({a, v, b});
            }
        }
        h.add("pumped", fmt("u v^k w: 4 prefixes and suffixes, 6 repeated parts, %zu values of k up to 1025; indices near both ends, zero and the middle", ks.size()),
              uvw.size() * ks.size(), [=](Ctx& c, uint64_t i)
        {
            auto& [a, v, b] = uvw[i % uvw.size()];
            size_t k = ks[i / uvw.size()];
            if (k > 1025 || (k > 40 && (i % uvw.size()) % 7 != k % 7))
                return;
            all(c, a + repeat(v, k) + b, false);
        }, 4);
    }
    h.add("wide-indexes", fmt("all pairs of %zu indexes (2^k +- 0..3 and their negations) in 6 texts", wide_numbers().size()), 6 * wide_numbers().size(), [](Ctx& c, uint64_t i)
    {
        static const string texts[] = {"", "a", "a\xCC\x81" "b", u(0x1F600) + "xyz", u(0x301), repeat("a" + u(0x301), 40)};
        auto& s = texts[i % 6];
        auto a = wide_numbers()[i / 6];
        auto segs = ref::segment(s);
        auto cps = ref::codepoints(s), chars = ref::characters(s);
        c.sample([&] { return fmt("slices of %s from %td", show(s).c_str(), a); });
        lookup(c, s, segs, a);
        for (auto b : wide_numbers())
        {
            sub(c, s, cps, a, b, false);
            sub(c, s, chars, a, b, true);
            c.state();
        }
    }, 4);
    add_blocks(h, vector<string>{"a", "\xCC\x81"}, few_block_symbols(), few_block_symbols(), [](Ctx& c, const string& s, const string&, const string&)
    {
        all(c, s, false);
    });
}
