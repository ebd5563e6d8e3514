// C07: indexed insertion and replacement are splices.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"

using namespace mc;
using namespace ystring;

// Byte offset of position i (n itself is the end), npos if outside.
static size_t offset_of(string_view s, const vector<ref::Span>& u, ptrdiff_t i)
{
    auto N = ptrdiff_t(u.size());
    if (i > N || i < -N)
        return SIZE_MAX;
    if (i < 0)
        i += N;
    return i == N ? s.size() : u[size_t(i)].b;
}

static string splice(string_view s, size_t b, size_t e, string_view with)
{
    return string(s.substr(0, b)) + string(with) + string(s.substr(e));
}

// Where an empty or non-empty slice sits in bytes.
static std::pair<size_t, size_t> slice_bytes(string_view s, const vector<ref::Span>& u, ptrdiff_t a, ptrdiff_t b)
{
    auto [f, l] = ref::slice(u.size(), a, b);
    size_t start = f == u.size() ? s.size() : u[f].b;
    return {start, f == l ? start : u[l - 1].e};
}

struct Edit
{
    int op; // 0 insert_codepoint, 1 insert_codepoints, 2 insert_char, 3 insert_chars, 4 replace_codepoints, 5 replace_chars
    ptrdiff_t a, b;
    string text; // one code point for ops 0 and 2
};

static const char* const NAMES[] = {"insert_codepoint", "insert_codepoints", "insert_char", "insert_chars", "replace_codepoints", "replace_chars"};

static string show_edit(const Edit& e)
{
    if (e.op < 4)
        return fmt("%s(%td, %s)", NAMES[e.op], e.a, show(e.text).c_str());
    return fmt("%s(%td, %td, %s)", NAMES[e.op], e.a, e.b, show(e.text).c_str());
}

static bool model(const string& s, const Edit& e, string& out)
{
    bool by_char = e.op == 2 || e.op == 3 || e.op == 5;
    auto u = by_char ? ref::characters(s) : ref::codepoints(s);
    if (e.op < 4)
    {
        auto at = offset_of(s, u, e.a);
        if (at == SIZE_MAX)
            return false;
        out = splice(s, at, at, e.text);
        return true;
    }
    auto [b, f] = slice_bytes(s, u, e.a, e.b);
    out = splice(s, b, f, e.text);
    return true;
}

static string real(const string& s, const Edit& e)
{
    switch (e.op)
    {
    case 0: return insert_codepoint(s, e.a, ref::dec(e.text).at(0));
    case 1: return insert_codepoints(s, e.a, e.text);
    case 2: return insert_char(s, e.a, ref::dec(e.text).at(0));
    case 3: return insert_chars(s, e.a, e.text);
    case 4: return replace_codepoints(s, e.a, e.b, e.text);
    default: return replace_chars(s, e.a, e.b, e.text);
    }
}

// Applies one edit to the real string and the model; false if it is refused.
static bool step(Ctx& c, string& s, const Edit& e)
{
    string want;
    auto keep = s;
    if (!model(s, e, want))
    {
        if (e.text.empty())
            return false; // nothing to insert: both answers are acceptable
        MC_THROWS(c, real(s, e), "%s on %s", show_edit(e).c_str(), show(s).c_str());
        return false;
    }
    auto got = real(s, e);
    MC_EQ(c, got, want, "%s on %s", show_edit(e).c_str(), show(s).c_str());
    MC_OK(c, s == keep, "%s changed its argument", show_edit(e).c_str());
    c.outcome(hash(got));
    s = got;
    return true;
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    {
        StringSpace sp(us(U"a\u0301\u00E9\u20AC\U0001F600"), 0, T ? 6 : 5);
        h.add("all-edits", fmt("every reachable string of up to %d of 5 code points; from each, every insertion at -n-2..n+2 and both extremes and every slice replacement", T ? 6 : 5),
              sp.count(), [sp](Ctx& c, uint64_t i)
        {
            const string base = sp.get(i);
            c.sample([&] { return "all single edits of " + show(base); });
            c.state();
            auto N = ptrdiff_t(ref::codepoints(base).size());
            vector<ptrdiff_t> ix = {PTRDIFF_MAX, PTRDIFF_MIN + 1, PTRDIFF_MIN};
            for (ptrdiff_t k = -N - 2; k <= N + 2; ++k)
                ix.push_back(k);
            static const vector<string> singles = us(U"b\u0301\U0001F601"), texts = {"", "xy", u(0x301), u(0x1F600) + "z"};
            for (auto a : ix)
            {
                for (auto& t : singles)
                {
                    for (int op : {0, 2})
                    {
                        string s = base;
                        step(c, s, {op, a, 0, t});
                    }
                }
                for (auto& t : texts)
                {
                    for (int op : {1, 3})
                    {
                        string s = base;
                        step(c, s, {op, a, 0, t});
                    }
                }
                for (auto b : ix)
                {
                    for (int op : {4, 5})
                    {
                        string s = base;
                        step(c, s, {op, a, b, texts[(i + size_t(a) + size_t(b)) & 3]});
                    }
                }
            }
        }, 8);
    }
    {
        // Histories: every chain of edits from a menu, without copying the
        // string in between.
        vector<Edit> menu;
        for (int op : {0, 2})
        {
            for (ptrdiff_t a : {0, 1, -1, 3})
            {
                for (auto& t : us(U"b\u0301\u20AC"))
                    menu.push_back({op, a, 0, t});
            }
        }
        for (int op : {4, 5})
        {
            for (auto [a, b] : vector<std::pair<ptrdiff_t, ptrdiff_t>>{{0, 1}, {1, -1}, {-2, PTRDIFF_MAX}, {-1, -3}, {2, 2}, {-3, 2}, {-1, -1}})
            {
                for (auto& t : vector<string>{"", "q" + u(0x301)})
                    menu.push_back({op, a, b, t});
            }
        }
        vector<string> starts = {"", "a", "a" + u(0x301) + u(0x20AC) + "d"};
        Sequences sq{menu.size(), 1, T ? 4u : 3u};
        h.add("histories", fmt("all chains of up to %u edits from a menu of %zu, from 3 starting strings", sq.max_len, menu.size()), sq.count(),
              [=](Ctx& c, uint64_t i)
        {
            vector<unsigned> v;
            sq.get(i, v);
            for (auto& st : starts)
            {
                string s = st;
                string text = show(st);
                for (auto k : v)
                {
                    text += " -> " + show_edit(menu[k]);
                    step(c, s, menu[k]);
                    c.state();
                }
                c.sample([&] { return text + " = " + show(s); });
            }
        }, 64);
    }
    h.add("all-codepoints", "every code point inserted, inserted next to and cut out", 0x110000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            auto e = u(cp);
            c.state();
            for (int op = 0; op < 4; ++op)
            {
                string s = "x" + u(0xE9);
                step(c, s, {op, ptrdiff_t(cp % 5) - 2, 0, e});
                s = e + "y" + e;
                step(c, s, {op, ptrdiff_t(cp % 7) - 3, 0, "z"});
            }
            string s = "x" + e + "y" + e;
            step(c, s, {4, 1, 2, "-"});
            s = "x" + e + "y" + e;
            step(c, s, {5, 1, 2, e});
            s = e + "y" + e;
            step(c, s, {4, -1, PTRDIFF_MAX, ""});
        }
    }, 8);
    h.add("wide-indexes", fmt("edits of 5 texts at %zu indexes (2^k +- 0..3 and their negations), replacements between all pairs of them", wide_numbers().size()), 5 * wide_numbers().size(), [](Ctx& c, uint64_t i)
    {
        static const string texts[] = {"", "a", "a\xCC\x81" "b", u(0x1F600) + "xyz", repeat("a" + u(0x301), 40)};
        auto& base = texts[i % 5];
        auto a = wide_numbers()[i / 5];
        c.sample([&] { return fmt("edits of %s at %td", show(base).c_str(), a); });
        for (int op = 0; op < 4; ++op)
        {
            string s = base;
            step(c, s, {op, a, 0, "q"});
            c.state();
        }
        for (auto b : wide_numbers())
        {
            for (int op : {4, 5})
            {
                string s = base;
                step(c, s, {op, a, b, "qr"});
                c.state();
            }
        }
    }, 4);
    {
        auto ks = pump_counts(T);
        vector<std::array<string, 3>> uvw;
        for (auto& v : vector<string>{"a", u(0x301), u(0x20AC), "a" + u(0x301)})
        {
            for (auto& a : vector<string>{"", u(0x1F600)})
            {
                for (auto& b : vector<string>{"", "b", u(0x301)})
                    uvw.push_back({a, v, b});
            }
        }
        h.add("pumped", fmt("u v^k w with k in %zu values up to 1025: edits near both ends and the middle, and long inserted texts", ks.size()),
              uvw.size() * ks.size(), [=](Ctx& c, uint64_t i)
        {
            auto& [a, v, b] = uvw[i % uvw.size()];
            size_t k = ks[i / uvw.size()];
            if (k > 1025)
                return;
            string base = a + repeat(v, k) + b;
            auto n = ptrdiff_t(ref::codepoints(base).size());
            c.state();
            for (ptrdiff_t p : {ptrdiff_t(0), ptrdiff_t(1), n / 2, n - 1, n, n + 1, ptrdiff_t(-1), -n, -n - 1})
            {
                for (int op = 0; op < 6; ++op)
                {
                    string s = base;
                    step(c, s, {op, p, p + (op & 1 ? 1 : n / 3), "Z"});
                }
            }
            string s = "ab";
            step(c, s, {1, 1, 0, base});
            step(c, s, {4, -1, 2, base});
            step(c, s, {3, -1, 0, base});
        }, 4);
    }
}
