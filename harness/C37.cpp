// C37: ranges and sets as values: copying, comparing, printing.
#include <sstream>
#include "common.hpp"
#include "Ystring/Algorithms.hpp"
#include "Ystring/CodepointSet.hpp"
#include "Ystring/Subrange.hpp"

using namespace mc;
using namespace ystring;

static const vector<size_t>& numbers()
{
    static const vector<size_t> v = []
    {
        vector<size_t> r;
        for (size_t k = 0; k < 12; ++k)
            r.push_back(k);
        for (int k = 4; k < 64; ++k)
        {
            r.push_back((size_t(1) << k) - 1);
            r.push_back(size_t(1) << k);
            r.push_back((size_t(1) << k) + 1);
        }
        for (size_t k = 10; k; k *= 10)
        {
            r.push_back(k - 1);
            r.push_back(k);
            if (k > SIZE_MAX / 10)
                break;
        }
        r.push_back(SIZE_MAX - 1);
        r.push_back(SIZE_MAX);
        std::sort(r.begin(), r.end());
        r.erase(std::unique(r.begin(), r.end()), r.end());
        return r;
    }();
    return v;
}

template <typename T>
static string printed(const T& t)
{
    std::ostringstream os;
    os << t;
    return os.str();
}

static void check_range(Ctx& c, size_t o, size_t l)
{
    Subrange r(o, l);
    c.state();
    c.call(5);
    MC_OK(c, r.start() == o && r.offset == o && r.length == l && r.end() == o + l, "Subrange(%zu, %zu): start %zu, end %zu, length %zu", o, l, r.start(), r.end(), r.length);
    MC_OK(c, bool(r) == (l != 0), "Subrange(%zu, %zu) is %s", o, l, r ? "true" : "false");
    MC_EQ(c, printed(r), "{offset: " + std::to_string(o) + ", length: " + std::to_string(l) + "}", "Subrange(%zu, %zu) printed", o, l);
    std::ostringstream os;
    os << r << 'x' << r;
    MC_EQ(c, os.str(), printed(r) + 'x' + printed(r), "Subrange(%zu, %zu) printed twice", o, l);
    MC_OK(c, os.good() && os.flags() == std::ostringstream().flags() && os.fill() == ' ' && os.width() == 0 && os.precision() == 6, "printing Subrange(%zu, %zu) changes the stream", o, l);
    Subrange copy = r;
    MC_OK(c, copy == r && !(copy != r), "Subrange(%zu, %zu) differs from its copy", o, l);
    copy.offset ^= 1;
    MC_OK(c, r.offset == o && !(copy == r) && copy != r, "Subrange(%zu, %zu) equals a changed copy", o, l);
    c.outcome(o * 31 + l);
}

static void compare_ranges(Ctx& c, size_t o, size_t l)
{
    Subrange a(o, l);
    for (auto p : numbers())
    {
        for (auto m : numbers())
        {
            Subrange b(p, m);
            bool same = o == p && l == m;
            c.call(2);
            if ((a == b) != same || (a != b) == same || (b == a) != same)
                c.fail(fmt("Subrange(%zu, %zu) and Subrange(%zu, %zu): == gives %d, != gives %d", o, l, p, m, int(a == b), int(a != b)));
        }
    }
    c.state();
}

// Universe of the set histories; no '-', which separates the ends of printed ranges.
static const u32string UNIVERSE = U"abcdez\u00DF\u00E9\u0300\u4E00\uFFFF\U00010000\U0010FFFF";

struct ModelSet
{
    vector<std::pair<char32_t, char32_t>> ranges;
    bool negated = false;

    bool contains(char32_t ch) const
    {
        for (auto& r : ranges)
        {
            if (r.first <= ch && ch <= r.second)
                return !negated;
        }
        return negated;
    }
};

// The members that the printed form tells of.
static string compare_printed(const string& text, const ModelSet& m, const u32string& universe = UNIVERSE)
{
    auto s = ref::dec(text);
    size_t i = 0;
    bool neg = false;
    if (s.empty() || s[i++] != '[')
        return "no [";
    if (i < s.size() && s[i] == '^')
    {
        neg = true;
        ++i;
    }
    ModelSet p;
    while (i + 1 < s.size())
    {
        auto a = s[i++], b = a;
        if (i + 2 < s.size() && s[i] == '-')
        {
            b = s[i + 1];
            i += 2;
        }
        p.ranges.push_back({a, b});
    }
    if (i >= s.size() || s[i] != ']')
        return "no ]";
    p.negated = neg;
    if (neg != m.negated)
        return "negation";
    for (auto u : universe)
    {
        for (char32_t ch : {char32_t(u), char32_t(u + 1), char32_t(u - 1)})
        {
            if (ch <= 0x10FFFF && p.contains(ch) != m.contains(ch))
                return mc::show(ch);
        }
    }
    return "";
}

enum { A_ADD_B, A_ADD_C, A_ADD_A, A_RANGE, A_REVERSED, A_MANY, A_HIGH, A_NEGATE, B_ADD_C, B_RANGE, B_NEGATE, COPY_AB, COPY_BA, CONSTRUCT_B, MOVE_AB, SWAP, SEARCH, OPS };
static const char* const OP_NAMES[] = {"a.add_codepoint(b)", "a.add_codepoint(c)", "a.add_codepoint(a)", "a.add_range(b, e)", "a.add_range(e, b)", "a.add_codepoints(...)", "a.add_range(FFFF, 10000)", "a.negated = !",
                                       "b.add_codepoint(c)", "b.add_range(d, z)", "b.negated = !", "b = a", "a = b", "b(a)", "b = move(a), a = {}", "swap(a, b)", "find_first_of(text, a)"};

static void history(Ctx& c, const vector<unsigned>& ops)
{
    CodepointSet s[2];
    ModelSet m[2];
    string text;
    auto verify = [&]
    {
        for (int k = 0; k < 2; ++k)
        {
            c.state();
            auto before = printed(s[k]);
            for (auto u : UNIVERSE)
            {
                for (char32_t ch : {char32_t(u), char32_t(u + 1), char32_t(u - 1)})
                {
                    c.call();
                    MC_OK(c, s[k].contains(ch) == m[k].contains(ch), "after %s: set %c contains U+%04X: %d", text.c_str(), 'a' + k, unsigned(ch), int(s[k].contains(ch)));
                }
            }
            auto p = printed(s[k]);
            auto wrong = ref::valid(p) ? compare_printed(p, m[k]) : "malformed";
            MC_OK(c, wrong.empty() && p == before, "after %s: set %c is printed as %s (%s)", text.c_str(), 'a' + k, mc::show(p).c_str(), wrong.c_str());
            c.outcome(hash(p));
        }
    };
    for (auto op : ops)
    {
        text += string(text.empty() ? "" : "; ") + OP_NAMES[op];
        switch (op)
        {
        case A_ADD_A: s[0].add_codepoint('a'); m[0].ranges.push_back({'a', 'a'}); break;
        case A_ADD_B: s[0].add_codepoint('b'); m[0].ranges.push_back({'b', 'b'}); break;
        case A_ADD_C: s[0].add_codepoint('c'); m[0].ranges.push_back({'c', 'c'}); break;
        case A_RANGE: s[0].add_range('b', 'e'); m[0].ranges.push_back({'b', 'e'}); break;
        case A_REVERSED: s[0].add_range('e', 'b'); break;
        case A_MANY:
            s[0].add_codepoints(U"\u00E9\U0010FFFFcd");
            for (auto ch : U"\u00E9\U0010FFFFcd"s)
                m[0].ranges.push_back({ch, ch});
            break;
        case A_HIGH: s[0].add_range(0xFFFF, 0x10000); m[0].ranges.push_back({0xFFFF, 0x10000}); break;
        case A_NEGATE: s[0].negated = !s[0].negated; m[0].negated = !m[0].negated; break;
        case B_ADD_C: s[1].add_codepoint('c'); m[1].ranges.push_back({'c', 'c'}); break;
        case B_RANGE: s[1].add_range('d', 'z'); m[1].ranges.push_back({'d', 'z'}); break;
        case B_NEGATE: s[1].negated = !s[1].negated; m[1].negated = !m[1].negated; break;
        case COPY_AB: s[1] = s[0]; m[1] = m[0]; break;
        case COPY_BA: s[0] = s[1]; m[0] = m[1]; break;
        case CONSTRUCT_B:
        {
            CodepointSet t(s[0]);
            t.add_codepoint('z');
            CodepointSet u(t);
            t.add_codepoint(0x300);
            s[1] = u;
            m[1] = m[0];
            m[1].ranges.push_back({'z', 'z'});
            break;
        }
        case MOVE_AB: s[1] = std::move(s[0]); s[0] = {}; m[1] = m[0]; m[0] = {}; break;
        case SWAP: std::swap(s[0], s[1]); std::swap(m[0], m[1]); break;
        default:
        {
            auto [r, ch] = find_first_of("\u4E00zc", s[0]);
            bool f = m[0].contains(0x4E00), g = m[0].contains('z'), h = m[0].contains('c');
            MC_OK(c, ch == (f ? U'\u4E00' : g ? 'z' : h ? 'c' : INVALID_CHAR), "after %s: finds U+%04X", text.c_str(), unsigned(ch));
            break;
        }
        }
    }
    verify();
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    auto n = numbers().size();
    h.add("ranges", fmt("Subrange of all pairs of %zu numbers: observers, copies, printed form; compared with all pairs", n), n * n, [=](Ctx& c, uint64_t i)
    {
        auto o = numbers()[i / n], l = numbers()[i % n];
        c.sample([&] { return fmt("Subrange(%zu, %zu)", o, l); });
        check_range(c, o, l);
        if (T || i % 7 == 0)
            compare_ranges(c, o, l);
    }, 16);
    h.add("iterator-ranges", "Subrange from iterators into strings of up to 40 bytes, all positions; the default one", 41, [](Ctx& c, uint64_t size)
    {
        string s(size, 'x');
        string_view v = s;
        for (size_t b = 0; b <= size; ++b)
        {
            for (size_t e = b; e <= size; ++e)
            {
                Subrange r(s.begin(), s.begin() + ptrdiff_t(b), s.begin() + ptrdiff_t(e)), q(v.data(), v.data() + b, v.data() + e);
                c.call(2);
                c.state();
                MC_OK(c, r.offset == b && r.length == e - b && q == r, "Subrange from iterators [%zu, %zu): %s", b, e, printed(r).c_str());
            }
        }
        MC_OK(c, !Subrange() && Subrange().length == 0 && Subrange().offset == SIZE_MAX && Subrange(size) == Subrange(size, 0), "default Subrange");
    }, 1);
    {
        Sequences sq{OPS, 1, T ? 5u : 4u};
        h.add("set-histories", fmt("all histories of up to %d of %d operations on two sets: copies and moves between them, additions, negation; membership and printed form", T ? 5 : 4, OPS), sq.count(), [=](Ctx& c, uint64_t i)
        {
            vector<unsigned> ops;
            sq.get(i, ops);
            c.sample([&] { return "history of operations on two sets"; });
            history(c, ops);
        }, 64);
    }
    h.add("printed-codepoints", "every code point as the only member, and as either end of a range in either order", 0x110000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            if (cp == '-' || cp == '^' || cp == ']')
                continue;
            CodepointSet a, b;
            a.add_codepoint(cp);
            b.add_range(std::min(cp, U'A'), std::max(cp, U'A'));
            b.negated = blk % 2;
            CodepointSet r;
            r.add_range(std::max(cp, U'A'), std::min(cp, U'A')); // empty, unless it is a single one
            u32string near{cp, 'A', char32_t(cp / 2)};
            for (auto& [s, m] : {std::pair{&a, ModelSet{{{cp, cp}}, false}}, std::pair{&r, ModelSet{{{std::max(cp, U'A'), std::min(cp, U'A')}}, false}}, std::pair{&b, ModelSet{{{std::min(cp, U'A'), std::max(cp, U'A')}}, b.negated}}})
            {
                c.state();
                c.call();
                auto p = printed(*s);
                auto wrong = ref::valid(p) ? compare_printed(p, m, near) : "malformed";
                MC_OK(c, wrong.empty(), "set with %s printed as %s (%s)", show(cp).c_str(), show(p).c_str(), wrong.c_str());
            }
        }
    }, 8);
    {
        vector<size_t> ns;
        for (size_t n = 0; n <= 300; ++n)
            ns.push_back(n);
        for (size_t n : {511, 512, 513, 1023, 1024, 1025, 4096, 4097, 65536, 65537})
            ns.push_back(n);
        h.add("printed-many", fmt("sets of n single code points, of n ranges and of both, %zu values of n up to 65537, both polarities", ns.size()), ns.size() * 4, [=](Ctx& c, uint64_t i)
        {
            size_t n = ns[i % ns.size()];
            auto kind = i / ns.size();
            CodepointSet s;
            ModelSet m;
            for (size_t k = 0; k < n; ++k)
            {
                auto a = char32_t(0x4E00 + k * 5);
                auto b = kind == 0 || (kind == 2 && k % 2) ? a : a + (kind == 3 ? 2 : 3);
                a == b ? s.add_codepoint(a) : s.add_range(a, b);
                m.ranges.push_back({a, b});
            }
            for (bool neg : {false, true})
            {
                s.negated = m.negated = neg;
                c.state();
                c.call();
                auto p = printed(s);
                // Range by range: the members are disjoint.
                auto t = ref::dec(p);
                u32string want = neg ? U"[^" : U"[";
                size_t at = want.size(), k = 0;
                MC_OK(c, t.substr(0, at) == want && t.back() == ']', "the set of %zu ranges is printed as %s", n, mc::show(p).c_str());
                for (; at + 1 < t.size(); ++k)
                {
                    auto a = t[at++], b = a;
                    if (at + 2 < t.size() && t[at] == '-')
                    {
                        b = t[at + 1];
                        at += 2;
                    }
                    MC_OK(c, k < n && m.ranges[k].first == a && m.ranges[k].second == b, "range %zu of %zu is printed as %s-%s", k, n, show(a).c_str(), show(b).c_str());
                }
                MC_OK(c, k == n, "%zu of %zu ranges are printed", k, n);
            }
        }, 4);
    }
}
