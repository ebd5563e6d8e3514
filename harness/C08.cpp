// C08: substring search.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"

using namespace mc;
using namespace ystring;

static bool occurs(string_view s, string_view p, size_t at)
{
    return at + p.size() <= s.size() && memcmp(s.data() + at, p.data(), p.size()) == 0;
}

static void search(Ctx& c, string_view s, string_view p, size_t off, bool all_last = true)
{
    // first
    size_t want = SIZE_MAX;
    if (!p.empty())
    {
        for (size_t i = off; i + p.size() <= s.size(); ++i)
        {
            if (occurs(s, p, i))
            {
                want = i;
                break;
            }
        }
    }
    auto r = find_first(s, p, off);
    c.call();
    MC_OK(c, want == SIZE_MAX ? !r && r.length == 0 : is_range(r, want, want + p.size()), "find_first(%s, %s, %zu): got %s, expected start %s", show(s).c_str(),
          show(p).c_str(), off, show(r).c_str(), show(want).c_str());
    c.outcome(want * 64 + off * 8 + p.size());
    if (off == 0)
        MC_OK(c, find_first(s, p) == r, "find_first(%s, %s) depends on the default offset", show(s).c_str(), show(p).c_str());
    if (!all_last)
        return;
    // last, entirely before off
    size_t lim = std::min(off, s.size());
    want = SIZE_MAX;
    if (!p.empty())
    {
        for (size_t i = 0; i + p.size() <= lim; ++i)
        {
            if (occurs(s, p, i))
                want = i;
        }
    }
    r = find_last(s, p, off);
    c.call();
    MC_OK(c, want == SIZE_MAX ? !r && r.length == 0 : is_range(r, want, want + p.size()), "find_last(%s, %s, %zu): got %s, expected start %s", show(s).c_str(),
          show(p).c_str(), off, show(r).c_str(), show(want).c_str());
    if (off == s.size())
    {
        MC_OK(c, find_last(s, p) == r, "find_last(%s, %s) differs from offset = size", show(s).c_str(), show(p).c_str());
        MC_OK(c, find_last(s, p, s.size() + 1) == r && find_last(s, p, SIZE_MAX) == r, "find_last(%s, %s) differs for offsets beyond the end", show(s).c_str(), show(p).c_str());
    }
}

static void ends(Ctx& c, string_view s, string_view p)
{
    MC_EQ(c, starts_with(s, p), p.size() <= s.size() && occurs(s, p, 0), "starts_with(%s, %s)", show(s).c_str(), show(p).c_str());
    MC_EQ(c, ends_with(s, p), p.size() <= s.size() && occurs(s, p, s.size() - p.size()), "ends_with(%s, %s)", show(s).c_str(), show(p).c_str());
}

static void all(Ctx& c, string_view s, string_view p)
{
    c.sample([&] { return "search for " + show(p) + " in " + show(s) + " from every offset"; });
    for (size_t off = 0; off <= s.size(); ++off)
    {
        search(c, s, p, off);
        c.state();
    }
    ends(c, s, p);
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    auto grid = [&h](const char* name, const string& bounds, StringSpace a, StringSpace b, uint64_t chunk)
    {
        uint64_t n = b.count();
        h.add(name, bounds, a.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = a.get(i);
            for (uint64_t k = 0; k < n; ++k)
                all(c, s, b.get(k));
        }, chunk);
    };
    grid("two-letters", fmt("all texts of up to %d and patterns of up to 5 bytes over {a, b}, all offsets", T ? 13 : 11), StringSpace(bytes({'a', 'b'}), 0, T ? 13 : 11),
         StringSpace(bytes({'a', 'b'}), 0, 5), 8);
    grid("three-letters", fmt("all texts of up to %d and patterns of up to 3 symbols over {a, U+00E4, U+20AC}, all byte offsets", T ? 7 : 6),
         StringSpace(us(U"a\u00E4\u20AC"), 0, T ? 7 : 6), StringSpace(us(U"a\u00E4\u20AC"), 0, 3), 8);
    grid("bytes", fmt("all texts of up to %d and patterns of up to 3 bytes over {00, a, 80, A4, C3, FF}: also patterns that match inside a sequence", T ? 6 : 5),
         StringSpace(bytes({0, 'a', 0x80, 0xA4, 0xC3, 0xFF}), 0, T ? 6 : 5), StringSpace(bytes({0, 'a', 0x80, 0xA4, 0xC3, 0xFF}), 0, 3), 8);
    h.add("all-byte-pairs", "all pairs of byte values as pattern and text", 65536, [](Ctx& c, uint64_t i)
    {
        string a(1, char(i >> 8)), b(1, char(i & 255));
        all(c, a + b, b);
        all(c, b + a + b + a, a + b);
        all(c, "x" + a, b);
    }, 64);
    h.add("contains", "contains() for every code point in texts with and without it, and every pair of representatives", 0x110000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            auto e = u(cp);
            c.state();
            MC_EQ(c, contains(e, cp), true, "contains(%s, %s)", show(e).c_str(), show(cp).c_str());
            MC_EQ(c, contains(u(0x20AC) + e + "a", cp), true, "contains(euro %s a, it)", show(cp).c_str());
            MC_EQ(c, contains("", cp), false, "contains(\"\", %s)", show(cp).c_str());
            for (char32_t o : neighbours(cp, {}, true) + u32string(1, cp + 1))
            {
                if (o <= 0x10FFFF)
                    MC_EQ(c, contains("-" + e + "-" + e, o), o == '-', "contains(- %s - %s, %s)", show(cp).c_str(), show(cp).c_str(), show(o).c_str());
            }
            auto& r = reps();
            for (size_t k = 0; k < r.size(); k += 9)
                MC_EQ(c, contains(e + u(r[k]), r[(k + cp) % r.size()]), r[(k + cp) % r.size()] == cp || r[(k + cp) % r.size()] == r[k], "contains(%s %s, %s)",
                      show(cp).c_str(), show(r[k]).c_str(), show(r[(k + cp) % r.size()]).c_str());
        }
    }, 8);
    {
        auto ks = pump_counts(T);
        // Texts u v^k w searched for v^j w', with j around k.
        vector<std::array<string, 3>> uvw;
        for (auto& v : vector<string>{"a", "ab", u(0xE4), "aab"})
        {
            for (auto& a : vector<string>{"", "b", "ab"})
            {
                for (auto& b : vector<string>{"", "b", "c", "aa"})
                    uvw.push_back({a, v, b});
            }
        }
        h.add("pumped", fmt("texts u v^k w and patterns v^j x with k, j in %zu values up to 1025 (j near 0, k/2 and k)", ks.size()), uvw.size() * ks.size(),
              [=](Ctx& c, uint64_t i)
        {
            auto& [a, v, b] = uvw[i % uvw.size()];
            size_t k = ks[i / uvw.size()];
            if (k > 1025)
                return;
            auto s = a + repeat(v, k) + b;
            c.sample([&] { return fmt("patterns in %s + %s x %zu + %s", show(a).c_str(), show(v).c_str(), k, show(b).c_str()); });
            for (size_t j : {size_t(0), size_t(1), k / 2, k ? k - 1 : 0, k, k + 1})
            {
                for (auto& x : {string(), b, string("b"), string("c")})
                {
                    for (auto& y : {string(), a})
                    {
                        auto p = y + repeat(v, j) + x;
                        for (size_t off : {size_t(0), size_t(1), a.size(), s.size() / 2, s.size() - std::min(s.size(), size_t(1)), s.size()})
                        {
                            if (off <= s.size())
                                search(c, s, p, off);
                        }
                        ends(c, s, p);
                        c.state();
                    }
                }
            }
        }, 2);
    }
    h.add("wide-offsets", fmt("find_last from %zu offsets (2^k +- 0..3) at or beyond the end", wide_numbers().size()), 6, [](Ctx& c, uint64_t i)
    {
        static const string texts[] = {"", "a", "ab", "a\xCC\x81" "b", u(0x1F600) + "xabab", repeat("ba", 150)};
        auto& s = texts[i];
        c.sample([&] { return "far offsets in " + show(s); });
        for (auto& p : vector<string>{"", "a", "b", "ab", "aba"})
        {
            for (auto k : wide_numbers())
            {
                if (size_t(k) <= s.size())
                    continue;
                c.state();
                MC_OK(c, find_last(s, p, size_t(k)) == find_last(s, p, s.size()), "find_last(%s, %s, %zu) differs from the one from the end", show(s).c_str(), show(p).c_str(), size_t(k));
                c.call();
                c.outcome(find_last(s, p).offset);
            }
        }
    });
    {
        // Patterns that differ from each part of the text in two or more bytes that cancel
        // out in a sum, a difference or an exclusive or, in every length up to 300.
        h.add("almost", "patterns of up to 300 bytes in texts of parts that differ from them by two bytes exchanged, one raised and one lowered, or two with the same bit flipped, at 3 distances", 300, [](Ctx& c, uint64_t k)
        {
            string p;
            for (size_t j = 0; j < k; ++j)
                p += "abcdefghijklmnop"[(j * j + j / 7) & 15];
            c.sample([&] { return fmt("near misses of a pattern of %zu bytes", size_t(k)); });
            for (size_t b : {size_t(0), size_t(1), size_t(k) / 3, size_t(k) / 2, size_t(k) - std::min<size_t>(k, 9)})
            {
                for (size_t d : {1, 4, 8, 16, 32})
                {
                    if (b + d >= k)
                        continue;
                    for (int how = 0; how < 4; ++how)
                    {
                        auto q = p;
                        if (how == 0)
                            std::swap(q[b], q[b + d]);
                        else if (how == 1)
                            ++q[b], --q[b + d];
                        else if (how == 2)
                            --q[b], ++q[b + d];
                        else
                            q[b] ^= 0x40, q[b + d] ^= 0x40;
                        if (q == p)
                            continue;
                        for (auto& s : {q, q + p, p + q, "x" + q + p + q + "y"})
                        {
                            search(c, s, p, 0);
                            search(c, s, p, s.size());
                            ends(c, s, p);
                            c.state();
                        }
                    }
                }
            }
        }, 1);
    }
    add_blocks(h, vector<string>{"a", "\x80"}, block_symbols(true), few_block_symbols(true), [](Ctx& c, const string& s, const string& x, const string& f)
    {
        for (auto& p : {x, x + f, f + x, f + x + f, x + repeat(f, 9), repeat(f, 9) + x})
        {
            search(c, s, p, 0, false);
            search(c, s, p, s.size());
            ends(c, s, p);
        }
        c.state();
    });
}
