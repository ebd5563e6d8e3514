// C09: code point search.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"

using namespace mc;
using namespace ystring;

using Pred = std::function<bool(char32_t)>;
using Found = std::pair<Subrange, char32_t>;

struct Answer
{
    int kind; // 0 none, 1 found, 2 throws
    size_t b = 0, e = 0;
    char32_t cp = 0;
};

static std::pair<char32_t, size_t> ending_at(string_view s, size_t i)
{
    for (size_t n = 1; n <= 4 && n <= i; ++n)
    {
        auto g = ref::segment(s.substr(i - n, n));
        if (g.size() == 1 && g[0].ok)
            return {g[0].cp, i - n};
    }
    return {ref::INVALID, i};
}

template <typename P>
static Answer first(string_view s, const P& p, size_t off)
{
    for (auto& g : ref::segment(s.substr(off)))
    {
        if (!g.ok)
            return {2};
        if (p(g.cp))
            return {1, off + g.b, off + g.e, g.cp};
    }
    return {0};
}

template <typename P>
static Answer last(string_view s, const P& p, size_t off)
{
    size_t i = std::min(off, s.size());
    while (i > 0)
    {
        auto [cp, b] = ending_at(s, i);
        if (cp == ref::INVALID)
            return {2};
        if (p(cp))
            return {1, b, i, cp};
        i = b;
    }
    return {0};
}

struct Target
{
    u32string chars;
    CodepointSet set;
};

static string describe(const u32string& chars) { return show(chars); }

static string describe(const CodepointSet& set)
{
    string r = set.negated ? "set[^" : "set[";
    for (auto& x : set.ranges)
        r += fmt("%X-%X ", unsigned(x.first), unsigned(x.second));
    return r + "]";
}

template <typename F, typename What>
static void compare(Ctx& c, const Answer& a, F f, const char* name, string_view s, const What& what, size_t off)
{
    c.call();
    Found r;
    bool threw = false;
    try
    {
        r = f();
    }
    catch (const YstringException&)
    {
        threw = true;
    }
    auto where = [&] { return fmt("%s(%s, %s, %s)", name, show(s).c_str(), describe(what).c_str(), show(off).c_str()); };
    if (threw || a.kind == 2)
    {
        if (!(threw && a.kind == 2))
            c.fail(where() + (threw ? ": unexpected YstringException" : ": no YstringException"));
    }
    else if (a.kind == 1 ? !(is_range(r.first, a.b, a.e) && r.second == a.cp) : !(!r.first && r.first.length == 0 && r.second == INVALID_CHAR))
        c.fail(where() + ": got " + show(r.first) + " " + show(r.second) + ", expected "
               + (a.kind == 1 ? fmt("[%zu, %zu) %s", a.b, a.e, show(a.cp).c_str()) : string("nothing")));
    c.outcome(uint64_t(a.kind) + a.b * 5 + a.e * 77 + a.cp * 1001);
}

static bool in_set(const Target& t, char32_t cp)
{
    bool in = false;
    for (auto& r : t.set.ranges)
        in = in || (r.first <= cp && cp <= r.second);
    return in != t.set.negated;
}

static void all(Ctx& c, string_view s, const Target& t, bool last_only_ends = false)
{
    auto by_chars = [&](char32_t cp) { return t.chars.find(cp) != u32string::npos; };
    auto by_set = [&](char32_t cp) { return in_set(t, cp); };
    for (size_t off = 0; off <= s.size() + 1; ++off)
    {
        if (last_only_ends && off > 2 && off + 2 < s.size())
            continue;
        size_t lo = off > s.size() ? SIZE_MAX : off;
        c.state();
        if (off <= s.size())
        {
            auto a = first(s, by_chars, off);
            compare(c, a, [&] { return find_first_of(s, std::u32string_view(t.chars), off); }, "find_first_of", s, t.chars, off);
            if (off == 0)
                compare(c, a, [&] { return find_first_of(s, std::u32string_view(t.chars)); }, "find_first_of", s, t.chars, off);
            compare(c, a, [&] { return find_first_where(s, by_chars, off); }, "find_first_where", s, t.chars, off);
            a = first(s, by_set, off);
            compare(c, a, [&] { return find_first_of(s, t.set, off); }, "find_first_of", s, t.set, off);
        }
        auto a = last(s, by_chars, lo);
        compare(c, a, [&] { return find_last_of(s, std::u32string_view(t.chars), lo); }, "find_last_of", s, t.chars, lo);
        if (off > s.size())
        {
            compare(c, a, [&] { return find_last_of(s, std::u32string_view(t.chars)); }, "find_last_of", s, t.chars, lo);
            compare(c, a, [&] { return find_last_of(s, std::u32string_view(t.chars), s.size() + 1); }, "find_last_of", s, t.chars, s.size() + 1);
        }
        compare(c, a, [&] { return find_last_where(s, by_chars, lo); }, "find_last_where", s, t.chars, lo);
        a = last(s, by_set, lo);
        compare(c, a, [&] { return find_last_of(s, t.set, lo); }, "find_last_of", s, t.set, lo);
    }
}

static Target target(u32string chars, vector<CodepointRange> ranges = {}, bool neg = false)
{
    Target t;
    t.chars = std::move(chars);
    t.set.ranges = ranges;
    if (ranges.empty())
    {
        for (auto ch : t.chars)
            t.set.ranges.push_back({ch, ch});
    }
    t.set.negated = neg;
    return t;
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    vector<Target> ts = {target(U"a"), target(U"\u00E9a", {}, true), target(U"\u20AC\U0001F600", {{0x20AC, 0x1F600}}), target(U"", {{'b', 0xE9}, {'a', 'a'}}, true),
                         target(U"b\u00E9\u00E9", {{0, 0x10FFFF}}), target(U"zq\U0010FFFF", {{0x7F, 0x80}, {0x20AD, 0xFFFF}}),
                         target(U""), target(U"", {}, true), target(U"ab", {{0xE9, 0xE9}, {'c', 'b'}}, true)};
    {
        StringSpace sp(us(U"ab\u00E9\u20AC\U0001F600"), 0, T ? 7 : 6);
        h.add("strings", fmt("all strings of up to %d of 5 code points, 9 character lists and sets (also negated, also empty), every byte offset", T ? 7 : 6), sp.count(),
              [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "9 targets in " + show(s) + " from every byte offset"; });
            for (auto& t : ts)
                all(c, s, t);
        }, 32);
    }
    {
        StringSpace sp(bytes({'a', 'b', 0x80, 0xA9, 0xC3, 0xE2, 0xF0, 0xFF}), 1, T ? 6 : 5);
        h.add("byte-strings", fmt("all strings of 1 to %d bytes of 8 classes (mostly malformed), 4 targets, every offset", T ? 6 : 5), sp.count(),
              [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "4 targets in " + show(s) + " from every byte offset"; });
            for (size_t k : {0, 1, 3, 7})
                all(c, s, ts[k]);
        }, 32);
    }
    h.add("all-codepoints", "every code point as the one searched for and as one that must not match", 0x110000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            auto s = "-" + u(cp) + "+";
            all(c, s, target(u32string{U'#', cp}));
            all(c, u(cp), target(neighbours(cp)));
            char32_t o = cp ^ (1u << (cp % 20));
            if (o <= 0x10FFFF && cp != '-' && cp != '+' && o != '-' && o != '+')
                all(c, s, target(u32string{o}, {{o, o}, {cp + 1, cp + 3}}));
        }
    }, 8);
    {
        auto ks = pump_counts(T);
        vector<std::array<string, 3>> uvw;
        for (auto& v : vector<string>{"a", u(0xE9), u(0x20AC), "b" + u(0x1F600)})
        {
            for (auto& a : vector<string>{"", "a", "b", u(0x20AC), "\xFF"})
            {
                for (auto& b : vector<string>{"", "a", "b", u(0x1F600), "\xE2\x82"})
                    uvw.push_back({a, v, b});
            }
        }
        h.add("pumped", fmt("u v^k w with k in %zu values up to 1025, 9 targets, offsets near both ends; and lists and sets of k entries", ks.size()),
              uvw.size() * ks.size(), [=](Ctx& c, uint64_t i)
        {
            auto& [a, v, b] = uvw[i % uvw.size()];
            size_t k = ks[i / uvw.size()];
            if (k > 1025 || (k > 20 && (i % uvw.size()) % 5 != k % 5))
                return;
            auto s = a + repeat(v, k) + b;
            for (auto& t : ts)
                all(c, s, t, true);
            // k entries, of which only one occurs.
            u32string many;
            vector<CodepointRange> ranges;
            for (size_t j = 0; j < k; ++j)
            {
                many += char32_t(0x4E00 + j);
                ranges.push_back({char32_t(0x4E00 + 2 * j), char32_t(0x4E00 + 2 * j)});
            }
            many.insert(many.size() - std::min<size_t>(many.size(), i % 3), 1, U'b');
            ranges.insert(ranges.end() - ptrdiff_t(std::min<size_t>(ranges.size(), i % 3)), {'b', 'c'});
            all(c, "xyb" + a + "b", target(many, ranges), true);
        }, 4);
    }
    h.add("no-codepoints", "lists and sets with values above 10FFFF and with what stands for no code point: strings of up to 4 bytes of 8 classes and code points", StringSpace(concat(bytes({'a', 0x7F, 0x80, 0xA9, 0xC3, 0xE2, 0xF0, 0xFF}), us(U"\u07FF\uFFFF\U0010FFFF\U00010000")), 0, 4).count(), [](Ctx& c, uint64_t i)
    {
        static const StringSpace sp(concat(bytes({'a', 0x7F, 0x80, 0xA9, 0xC3, 0xE2, 0xF0, 0xFF}), us(U"\u07FF\uFFFF\U0010FFFF\U00010000")), 0, 4);
        static const vector<Target> no = {target(u32string{0xFFFFFFFF}), target(u32string{0xFFFFFFFF, 'a', 0x110000}), target(u32string{0x80000000, 0x80000061, 0x200061, 0x110061, 0x100000061u & 0xFFFFFFFF}),
                                          target(u32string{0x110000}, {{0x110000, 0xFFFFFFFF}}), target(u32string{0x7FFFFFFF}, {{0x110000, 0xFFFFFFFF}, {'b', 'c'}}, true)};
        auto s = sp.get(i);
        c.sample([&] { return "values that are no code points in " + show(s); });
        for (auto& t : no)
            all(c, s, t);
    }, 16);
    h.add("wide-offsets", fmt("find_last_of and find_last_where from %zu offsets (2^k +- 0..3) at or beyond the end", wide_numbers().size()), 5, [](Ctx& c, uint64_t i)
    {
        static const string texts[] = {"", "a", "ab" + u(0xE9), u(0xE9) + "b", repeat("ab", 150)};
        auto& s = texts[i];
        c.sample([&] { return "far offsets in " + show(s); });
        auto t = target(U"a\u00E9");
        auto by = [&](char32_t cp) { return t.chars.find(cp) != u32string::npos; };
        auto a = last(s, by, s.size());
        for (auto k : wide_numbers())
        {
            if (size_t(k) < s.size())
                continue;
            c.state();
            compare(c, a, [&] { return find_last_of(s, std::u32string_view(t.chars), size_t(k)); }, "find_last_of", s, t.chars, size_t(k));
            compare(c, a, [&] { return find_last_of(s, t.set, size_t(k)); }, "find_last_of", s, t.set, size_t(k));
            compare(c, a, [&] { return find_last_where(s, by, size_t(k)); }, "find_last_where", s, t.chars, size_t(k));
        }
    });
    add_blocks(h, vector<string>{"a", "\xC3\x84"}, block_symbols(), few_block_symbols(), [](Ctx& c, const string& s, const string& x, const string&)
    {
        all(c, s, target(ref::dec(x)), true);
    });
}
