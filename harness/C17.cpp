// C17: case-insensitive search, replace and split.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"

using namespace mc;
using namespace ystring;
namespace ci = ystring::case_insensitive;

struct Text
{
    string s;
    u32string up;
    vector<size_t> pos; // byte offset of each code point, and the end

    explicit Text(string str) : s(std::move(str))
    {
        for (auto& g : ref::segment(s))
        {
            pos.push_back(g.b);
            up += ref::upper(g.cp);
        }
        pos.push_back(s.size());
    }

    size_t n() const { return up.size(); }
};

static bool at(const Text& t, const Text& p, size_t i)
{
    return i + p.n() <= t.n() && t.up.compare(i, p.n(), p.up) == 0;
}

static void find(Ctx& c, const Text& t, const Text& p)
{
    c.state();
    c.sample([&] { return "find_first/find_last(" + show(t.s) + ", " + show(p.s) + ") from every boundary"; });
    auto expect = [&](const Subrange& r, size_t i, const char* f, size_t off)
    {
        c.call();
        MC_OK(c, i == SIZE_MAX ? !r && r.length == 0 : is_range(r, t.pos[i], t.pos[i + p.n()]), "%s(%s, %s, %zu): got %s, expected %s", f, show(t.s).c_str(), show(p.s).c_str(), off,
              show(r).c_str(), i == SIZE_MAX ? "nothing" : show(t.pos[i]).c_str());
        c.outcome(i * 64 + off * 7 + p.n());
    };
    for (size_t o = 0; o <= t.n(); ++o)
    {
        size_t f = SIZE_MAX, l = SIZE_MAX;
        if (p.n())
        {
            for (size_t i = o; i < t.n() && f == SIZE_MAX; ++i)
            {
                if (at(t, p, i))
                    f = i;
            }
            for (size_t i = 0; i + p.n() <= o; ++i)
            {
                if (at(t, p, i))
                    l = i;
            }
        }
        expect(ci::find_first(t.s, p.s, t.pos[o]), f, "find_first", t.pos[o]);
        if (o == 0)
            expect(ci::find_first(t.s, p.s), f, "find_first", 0);
        expect(ci::find_last(t.s, p.s, t.pos[o]), l, "find_last", t.pos[o]);
        if (o == t.n())
        {
            expect(ci::find_last(t.s, p.s), l, "find_last", SIZE_MAX);
            expect(ci::find_last(t.s, p.s, t.s.size() + 1), l, "find_last", t.s.size() + 1);
        }
    }
    MC_EQ(c, ci::starts_with(t.s, p.s), p.n() == 0 || at(t, p, 0), "starts_with(%s, %s)", show(t.s).c_str(), show(p.s).c_str());
    MC_EQ(c, ci::ends_with(t.s, p.s), p.n() == 0 || (p.n() <= t.n() && at(t, p, t.n() - p.n())), "ends_with(%s, %s)", show(t.s).c_str(), show(p.s).c_str());
}

static void find_of(Ctx& c, const Text& t, const u32string& chars)
{
    c.state();
    CodepointSet set;
    set.add_codepoints(chars);
    auto in = [&](char32_t up)
    {
        for (auto x : chars)
        {
            if (ref::upper(x) == up)
                return true;
        }
        return false;
    };
    auto cps = ref::dec(t.s);
    auto expect = [&](const std::pair<Subrange, char32_t>& r, size_t i, const char* f, size_t off)
    {
        c.call();
        MC_OK(c, i == SIZE_MAX ? !r.first && r.first.length == 0 && r.second == INVALID_CHAR : is_range(r.first, t.pos[i], t.pos[i + 1]) && r.second == cps[i],
              "%s(%s, %s, %zu): got %s %s, expected %s", f, show(t.s).c_str(), show(chars).c_str(), off, show(r.first).c_str(), show(r.second).c_str(),
              i == SIZE_MAX ? "nothing" : show(t.pos[i]).c_str());
    };
    auto bounds = [&](size_t o, bool neg)
    {
        std::pair<size_t, size_t> r(SIZE_MAX, SIZE_MAX);
        for (size_t i = 0; i < t.n(); ++i)
        {
            if (in(t.up[i]) == neg)
                continue;
            if (i >= o && r.first == SIZE_MAX)
                r.first = i;
            if (i < o)
                r.second = i;
        }
        return r;
    };
    for (size_t o = 0; o <= t.n(); ++o)
    {
        auto [f, l] = bounds(o, false);
        expect(ci::find_first_of(t.s, std::u32string_view(chars), t.pos[o]), f, "find_first_of", t.pos[o]);
        expect(ci::find_last_of(t.s, std::u32string_view(chars), t.pos[o]), l, "find_last_of", t.pos[o]);
        if (o == 0)
            expect(ci::find_first_of(t.s, std::u32string_view(chars)), f, "find_first_of", 0);
        if (o == t.n())
            expect(ci::find_last_of(t.s, std::u32string_view(chars)), l, "find_last_of", SIZE_MAX);
        for (bool neg : {false, true})
        {
            set.negated = neg;
            auto [f, l] = bounds(o, neg);
            expect(ci::find_first_of(t.s, set, t.pos[o]), f, neg ? "find_first_of(negated set)" : "find_first_of(set)", t.pos[o]);
            expect(ci::find_last_of(t.s, set, t.pos[o]), l, neg ? "find_last_of(negated set)" : "find_last_of(set)", t.pos[o]);
            if (o == 0)
                expect(ci::find_first_of(t.s, set), f, neg ? "find_first_of(negated set)" : "find_first_of(set)", 0);
            if (o == t.n())
                expect(ci::find_last_of(t.s, set), l, neg ? "find_last_of(negated set)" : "find_last_of(set)", SIZE_MAX);
        }
    }
}

static vector<ref::Span> matches(const Text& t, const Text& p, ptrdiff_t limit)
{
    vector<ref::Span> r;
    if (p.n() == 0)
        return r;
    if (limit >= 0)
    {
        for (size_t i = 0; i + p.n() <= t.n() && r.size() < size_t(limit);)
        {
            if (at(t, p, i))
                r.push_back({t.pos[i], t.pos[i + p.n()]}), i += p.n();
            else
                ++i;
        }
    }
    else
    {
        for (size_t e = t.n(); e >= p.n() && r.size() < size_t(0) - size_t(limit);)
        {
            if (at(t, p, e - p.n()))
                r.insert(r.begin(), {t.pos[e - p.n()], t.pos[e]}), e -= p.n();
            else
                --e;
        }
    }
    return r;
}

static const ptrdiff_t LIMITS[] = {PTRDIFF_MAX, 1, 2, 3, -1, -2, -3, PTRDIFF_MIN};

static void replacing(Ctx& c, const Text& t, const Text& p, string_view to, ptrdiff_t k)
{
    string want;
    size_t b = 0;
    for (auto& m : matches(t, p, k))
    {
        want += t.s.substr(b, m.b - b);
        want += to;
        b = m.e;
    }
    want += t.s.substr(b);
    MC_EQ(c, ci::replace(t.s, p.s, to, k), want, "replace(%s, %s, %s, %td)", show(t.s).c_str(), show(p.s).c_str(), show(to).c_str(), k);
    if (k == PTRDIFF_MAX)
        MC_EQ(c, ci::replace(t.s, p.s, to), want, "replace(%s, %s, %s)", show(t.s).c_str(), show(p.s).c_str(), show(to).c_str());
    c.outcome(hash(want));
}

static vector<string_view> cut(string_view s, const vector<ref::Span>& seps, size_t max, bool ignore)
{
    vector<string_view> r;
    size_t b = 0;
    for (auto& e : seps)
    {
        if (r.size() >= max)
            break;
        if (!ignore || e.b > b)
            r.push_back(s.substr(b, e.b - b));
        b = e.e;
    }
    if (!ignore || b < s.size())
        r.push_back(s.substr(b));
    return r;
}

static const SplitParams PARAMS[] = {{}, {1, false}, {2, false}, {0, false}, {SIZE_MAX, true}, {1, true}, {2, true}};

static void same(Ctx& c, const vector<string_view>& got, const vector<string_view>& want, string_view s, const string& sep, SplitParams p)
{
    MC_EQ(c, got, want, "split(%s, %s, {%s, %s})", show(s).c_str(), sep.c_str(), show(p.max_splits).c_str(), show(p.ignore_empty).c_str());
    for (size_t k = 0; k < got.size(); ++k)
        MC_OK(c, got[k].empty() || got[k].data() == want[k].data(), "split(%s, %s): part %zu is not the part of the argument", show(s).c_str(), sep.c_str(), k);
}

static void splitting(Ctx& c, const Text& t, const Text& sep)
{
    for (auto& p : PARAMS)
        same(c, ci::split(t.s, string_view(sep.s), p), cut(t.s, matches(t, sep, PTRDIFF_MAX), p.max_splits, p.ignore_empty), t.s, show(sep.s), p);
    same(c, ci::split(t.s, string_view(sep.s)), cut(t.s, matches(t, sep, PTRDIFF_MAX), SIZE_MAX, false), t.s, show(sep.s), {});
}

static void splitting(Ctx& c, const Text& t, const u32string& chars)
{
    vector<ref::Span> seps;
    for (size_t i = 0; i < t.n(); ++i)
    {
        for (auto x : chars)
        {
            if (ref::upper(x) == t.up[i])
            {
                seps.push_back({t.pos[i], t.pos[i + 1]});
                break;
            }
        }
    }
    for (auto& p : PARAMS)
        same(c, ci::split(t.s, std::u32string_view(chars), p), cut(t.s, seps, p.max_splits, p.ignore_empty), t.s, show(chars), p);
    same(c, ci::split(t.s, std::u32string_view(chars)), cut(t.s, seps, SIZE_MAX, false), t.s, show(chars), {});
}

static void everything(Ctx& c, const Text& t, const Text& p)
{
    find(c, t, p);
    for (auto k : LIMITS)
    {
        replacing(c, t, p, "", k);
        replacing(c, t, p, "<" + p.s + ">", k);
    }
    splitting(c, t, p);
}

// Code points by upper case, only classes with more than one member.
static const std::map<char32_t, u32string>& classes()
{
    static const std::map<char32_t, u32string> r = []
    {
        std::map<char32_t, u32string> m;
        for (char32_t c = 0; c <= ref::MAXCP; ++c)
        {
            if (ref::upper(c) != c)
                m[ref::upper(c)] += c;
        }
        for (auto& [u, v] : m)
        {
            if (ref::upper(u) == u)
                v += u;
        }
        return m;
    }();
    return r;
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    auto texts = [&](const char* name, std::u32string_view al, unsigned nt, unsigned np)
    {
        StringSpace sp(us(al), 0, nt), ps(us(al), 0, np);
        auto pats = std::make_shared<vector<Text>>();
        for (uint64_t i = 0; i < ps.count(); ++i)
            pats->push_back(Text(ps.get(i)));
        h.add(name, fmt("all texts of up to %u and patterns of up to %u of %zu code points: find from every boundary, starts/ends_with, replace with 8 limits, split with 7 settings", nt, np, al.size()),
              sp.count(), [=](Ctx& c, uint64_t i)
        {
            Text t(sp.get(i));
            for (auto& p : *pats)
                everything(c, t, p);
        }, 4);
    };
    texts("ascii", U"aAb", T ? 8 : 7, 3);
    texts("long-s", U"sS\u017Fx", T ? 6 : 5, 3);
    texts("kelvin", U"kK\u212A\u20AC", T ? 6 : 5, 3);
    texts("lengths", U"\u2C65\u023A\u0131i", T ? 6 : 5, 3);
    texts("digraphs", U"\u01C4\u01C5\u01C6\U00010400\U00010428", T ? 5 : 4, 2);
    texts("sharp-s", U"\u00DF\u1E9Es\u00B5\u03BC\u039C", T ? 5 : 4, 2);
    texts("not-letters", U"[{@`\u24D0\u24B6", T ? 5 : 4, 2);
    {
        StringSpace sp(us(U"kK\u212Aa\u03BC\u00B5"), 0, T ? 5 : 4);
        vector<u32string> lists = {U"", U"k", U"\u212A", U"A", U"\u00B5", U"\u039Ca", U"xKy", U"[", U"lmn\u03BC"};
        h.add("find-of", fmt("all texts of up to %d of 6 code points, 9 character lists: find_first_of/find_last_of from every boundary (list and set), split by characters", T ? 5 : 4), sp.count(),
              [=](Ctx& c, uint64_t i)
        {
            Text t(sp.get(i));
            for (auto& l : lists)
            {
                find_of(c, t, l);
                splitting(c, t, l);
            }
        }, 4);
    }
    {
        auto& m = classes();
        auto keys = std::make_shared<vector<char32_t>>();
        for (auto& [k, v] : m)
            keys->push_back(k);
        h.add("case-classes", fmt("all %zu sets of code points with a common upper case: all pairs of members and 3 outsiders as text and pattern", keys->size()), keys->size(), [=, &m](Ctx& c, uint64_t i)
        {
            char32_t up = (*keys)[i];
            u32string v = m.at(up) + up;
            if (ref::upper(up) != up)
                v += ref::upper(up);
            if (up < ref::MAXCP)
                v += up + 1;
            v += ref::lower(up);
            v += char32_t(up ^ 0x20);
            v += 'q';
            for (auto a : v)
            {
                for (auto b : v)
                {
                    if (a > ref::MAXCP || b > ref::MAXCP)
                        continue;
                    everything(c, Text("x" + u(a) + "y" + u(b)), Text(u(b)));
                    everything(c, Text(u(a) + u(a) + u(b)), Text(u(b) + u(a)));
                    find_of(c, Text("x" + u(a) + u(b)), u32string{b});
                    splitting(c, Text("x" + u(a) + u(b)), u32string{'?', b});
                }
            }
        }, 4);
    }
    h.add("all-codepoints", "every code point found by itself and by its three mappings, and not by a neighbour that differs in case mapping", 0x110000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (char32_t a = char32_t(blk * 64); a < (blk + 1) * 64; ++a)
        {
            Text t("-" + u(a) + "+");
            for (char32_t b : {a, ref::upper(a), ref::lower(a), ref::title(a), char32_t(a ^ 1), char32_t(a ^ 0x20), char32_t(a ^ 0x10000)})
            {
                if (b > ref::MAXCP)
                    continue;
                Text p(u(b));
                find(c, t, p);
                replacing(c, t, p, "", PTRDIFF_MAX);
                replacing(c, t, p, "z", -1);
            }
            find_of(c, t, u32string{'0', ref::lower(a), '1'});
            find_of(c, t, neighbours(a));
        }
    }, 8);
    h.add("wide-numbers", fmt("%zu limits (2^k +- 0..3 and their negations) and offsets beyond the end with 6 texts", wide_numbers().size()), 6, [](Ctx& c, uint64_t i)
    {
        static const string texts[] = {"", "A", "aBAab", "AaAa", repeat("aB", 130), u(0x212A) + "kK" + u(0x2C65)};
        Text t(texts[i]);
        c.sample([&] { return "limits and offsets far from those that matter, in " + show(t.s); });
        for (auto& q : {"A", "ab", "K"})
        {
            Text p(q);
            for (auto k : wide_numbers())
            {
                c.state();
                if (k != 0)
                {
                    replacing(c, t, p, "", k);
                    replacing(c, t, p, "ccc", k);
                }
                for (bool ig : {false, true})
                    same(c, ci::split(t.s, string_view(p.s), {size_t(k), ig}), cut(t.s, matches(t, p, PTRDIFF_MAX), size_t(k), ig), t.s, show(p.s), {size_t(k), ig});
                if (size_t(k) > t.s.size())
                {
                    MC_OK(c, ci::find_last(t.s, p.s, size_t(k)) == ci::find_last(t.s, p.s), "find_last(%s, %s, %zu) differs from the one from the end", show(t.s).c_str(), show(p.s).c_str(), size_t(k));
                    MC_OK(c, ci::find_last_of(t.s, U"k\u00E9a"sv, size_t(k)) == ci::find_last_of(t.s, U"k\u00E9a"sv), "find_last_of(%s, %zu) differs from the one from the end", show(t.s).c_str(), size_t(k));
                }
            }
        }
    });
    {
        vector<size_t> ks;
        for (size_t k = 0; k <= (T ? 260u : 130u); ++k)
            ks.push_back(k);
        vector<std::array<string, 4>> uvw = {{"", "a", "b", "A"}, {"x", "K", "", u(0x212A)}, {"", "ab", "a", "aB"}, {"b", u(0xE9), "b", u(0xC9)}, {"", u(0x2C65), "", u(0x23A)}, {"A", "s", u(0x17F), "S"}};
        h.add("pumped", fmt("u v^k w for k up to %zu, 6 (u, v, w): patterns V, V^j w, with limits around k", ks.back()), ks.size() * uvw.size(), [=](Ctx& c, uint64_t i)
        {
            auto& [a, v, b, V] = uvw[i % uvw.size()];
            size_t k = ks[i / uvw.size()];
            Text t(a + repeat(v, k) + b);
            for (size_t j : {size_t(1), size_t(2), k / 2 + 1, k, k + 1})
            {
                Text p(repeat(V, j)), q(repeat(V, j) + b);
                find(c, t, p);
                find(c, t, q);
                for (ptrdiff_t lim : {PTRDIFF_MAX, ptrdiff_t(k) + 1, ptrdiff_t(k), ptrdiff_t(k) - 1, -ptrdiff_t(k) - 1, -ptrdiff_t(k), ptrdiff_t(-1)})
                {
                    if (lim)
                        replacing(c, t, p, "<>", lim);
                }
                splitting(c, t, p);
            }
        }, 2);
    }
    add_blocks(h, vector<string>{"a", "A"}, block_symbols(), few_block_symbols(), [](Ctx& c, const string& s, const string& x, const string& f)
    {
        Text t(s), p(x), q(f + x), r(ref::enc(ref::upper(ref::dec(x)[0])) + ref::enc(ref::lower(ref::dec(f)[0])));
        for (auto* y : {&p, &q, &r})
            find(c, t, *y);
        replacing(c, t, p, "<>", PTRDIFF_MAX);
        splitting(c, t, q);
    });
}
