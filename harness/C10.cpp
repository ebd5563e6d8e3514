// C10: newlines and lines.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"
#include "Ystring/CodepointPredicates.hpp"

using namespace mc;
using namespace ystring;

static bool nl(char32_t c)
{
    return c == 0x0A || c == 0x0B || c == 0x0C || c == 0x0D || c == 0x85 || c == 0x2028 || c == 0x2029;
}

// All line ends of a well-formed string, from its start.
static vector<ref::Span> line_ends(string_view s)
{
    vector<ref::Span> r;
    auto g = ref::segment(s);
    for (size_t i = 0; i < g.size(); ++i)
    {
        if (!nl(g[i].cp))
            continue;
        if (g[i].cp == '\r' && i + 1 < g.size() && g[i + 1].cp == '\n')
        {
            r.push_back({g[i].b, g[i + 1].e});
            ++i;
        }
        else
            r.push_back({g[i].b, g[i].e});
    }
    return r;
}

static void check(Ctx& c, const Subrange& r, const vector<ref::Span>& ends, bool first, size_t shift, const string& what)
{
    c.call();
    if (ends.empty())
    {
        if (r || r.length)
            c.fail(what + ": got " + show(r) + ", expected nothing");
        return;
    }
    auto e = first ? ends.front() : ends.back();
    if (!is_range(r, e.b + shift, e.e + shift))
        c.fail(what + ": got " + show(r) + ", expected " + show(ref::Span{e.b + shift, e.e + shift}));
    c.outcome(e.b * 8 + e.e);
}

static void lines(Ctx& c, string_view s, const vector<ref::Span>& ends, size_t max, bool ignore, bool dflt);

static void all(Ctx& c, string_view s, bool deep = true)
{
    c.sample([&] { return "line ends of " + show(s); });
    auto g = ref::segment(s);
    vector<size_t> offs;
    for (auto& x : g)
        offs.push_back(x.b);
    offs.push_back(s.size());
    for (size_t k = 0; k < offs.size(); ++k)
    {
        if (!deep && k > 3 && k + 4 < offs.size())
            continue;
        size_t o = offs[k];
        c.state();
        check(c, find_first_newline(s, o), line_ends(s.substr(o)), true, o, fmt("find_first_newline(%s, %zu)", show(s).c_str(), o));
        check(c, find_last_newline(s, o), line_ends(s.substr(0, o)), false, 0, fmt("find_last_newline(%s, %zu)", show(s).c_str(), o));
    }
    auto ends = line_ends(s);
    check(c, find_first_newline(s), ends, true, 0, fmt("find_first_newline(%s)", show(s).c_str()));
    check(c, find_last_newline(s), ends, false, 0, fmt("find_last_newline(%s)", show(s).c_str()));
    check(c, find_last_newline(s, s.size() + 3), ends, false, 0, fmt("find_last_newline(%s, size + 3)", show(s).c_str()));
    for (int v = 0; v < (deep ? 5 : 2); ++v)
        lines(c, s, ends, v == 2 ? 1 : v == 3 ? 2 : v == 4 ? 0 : SIZE_MAX, v & 1, v == 0);
}

static void lines(Ctx& c, string_view s, const vector<ref::Span>& ends, size_t max, bool ignore, bool dflt)
{
    {
        SplitParams p;
        p.ignore_empty = ignore;
        p.max_splits = max;
        vector<string_view> want;
        size_t b = 0;
        bool rest = false;
        for (auto& e : ends)
        {
            if (want.size() == p.max_splits)
            {
                rest = true;
                break;
            }
            if (!p.ignore_empty || e.b > b)
                want.push_back(s.substr(b, e.b - b));
            b = e.e;
        }
        (void)rest;
        if (!p.ignore_empty || b < s.size())
            want.push_back(s.substr(b));
        auto got = dflt ? split_lines(s) : split_lines(s, p);
        MC_EQ(c, got, want, "split_lines(%s, {%s, %s})", show(s).c_str(), show(p.max_splits).c_str(), show(p.ignore_empty).c_str());
        for (size_t k = 0; k < got.size(); ++k)
            MC_OK(c, got[k].empty() || got[k].data() == want[k].data(), "split_lines(%s): part %zu is not the part of the argument", show(s).c_str(), k);
    }
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    {
        StringSpace sp(us(U"a\n\v\f\r\u0085\u2028\u2029\u2027"), 0, T ? 6 : 5);
        h.add("strings", fmt("all strings of up to %d of the 7 newline characters, a letter and a near miss; all code point boundaries as offset", T ? 6 : 5), sp.count(),
              [sp](Ctx& c, uint64_t i) { all(c, sp.get(i)); }, 32);
    }
    {
        StringSpace sp(us(U"a\n\r\u0085"), 6, T ? 10 : 8);
        h.add("long-strings", fmt("all strings of 6 to %d of a, LF, CR and U+0085", T ? 10 : 8), sp.count(), [sp](Ctx& c, uint64_t i) { all(c, sp.get(i)); }, 32);
    }
    h.add("all-codepoints", "every code point alone, between letters and next to LF and CR", 0x110000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            auto e = u(cp);
            for (auto& s : {e, "a" + e + "b", e + "\n", "\r" + e, "\r" + e + "\n"})
                all(c, s);
        }
    }, 8);
    {
        auto ks = pump_counts(T);
        vector<std::array<string, 3>> uvw;
        for (auto& v : vector<string>{"a", "\r\n", "\r", "\n", "b\n", "x\xE2\x80\xA8", "\n\r", "ab\r\n"})
        {
            for (auto& a : vector<string>{"", "a", "\n", "\r"})
            {
                for (auto& b : vector<string>{"", "a", "\n", "\r", "\r\n"})
                    uvw.push_back({a, v, b});
            }
        }
        h.add("pumped", fmt("u v^k w: 4 prefixes, 5 suffixes, 8 repeated parts, %zu values of k up to 4097", ks.size()), uvw.size() * ks.size(),
              [=](Ctx& c, uint64_t i)
        {
            auto& [a, v, b] = uvw[i % uvw.size()];
            size_t k = ks[i / uvw.size()];
            if (k > 4097 || (k > 300 && (i % uvw.size()) % 11))
                return;
            all(c, a + repeat(v, k) + b, false);
        }, 4);
    }
    h.add("wide-numbers", fmt("%zu limits (2^k +- 0..3, and their complements) and offsets beyond the end with 6 texts", wide_numbers().size()), 6, [](Ctx& c, uint64_t i)
    {
        static const string texts[] = {"", "\n", "a\nb\r\nc\xC2\x85", "\n\r\n\r", repeat("a\n", 260), repeat("\r\n", 260)};
        auto& s = texts[i];
        auto ends = line_ends(s);
        c.sample([&] { return "limits and offsets far from those that matter, in " + show(s); });
        for (auto k : wide_numbers())
        {
            c.state();
            lines(c, s, ends, size_t(k), false, false);
            lines(c, s, ends, size_t(k), true, false);
            if (size_t(k) >= s.size())
                check(c, find_last_newline(s, size_t(k)), ends, false, 0, fmt("find_last_newline(%s, %zu)", show(s).c_str(), size_t(k)));
        }
    });
    add_blocks(h, vector<string>{"a", "\xE2\x80\xA7"}, block_symbols(), few_block_symbols(), [](Ctx& c, const string& s, const string&, const string&)
    {
        all(c, s, false);
    });
}
