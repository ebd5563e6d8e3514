// C18: code point sets.
#include <set>
#include "common.hpp"
#include "Ystring/CodepointSet.hpp"

using namespace mc;
using namespace ystring;

struct Op
{
    int kind; // 0 add_codepoint, 1 add_range, 2 add_codepoints
    char32_t a, b;
    u32string list;
};

static string show_op(const Op& o)
{
    if (o.kind == 0)
        return "add_codepoint(" + show(o.a) + ")";
    if (o.kind == 1)
        return "add_range(" + show(o.a) + ", " + show(o.b) + ")";
    return "add_codepoints(" + show(o.list) + ")";
}

static void apply(CodepointSet& s, const Op& o)
{
    if (o.kind == 0)
        s.add_codepoint(o.a);
    else if (o.kind == 1)
        s.add_range(o.a, o.b);
    else
        s.add_codepoints(o.list);
}

static bool added(const vector<Op>& ops, char32_t cp)
{
    for (auto& o : ops)
    {
        if (o.kind == 0 ? o.a == cp : o.kind == 1 ? o.a <= cp && cp <= o.b : o.list.find(cp) != u32string::npos)
            return true;
    }
    return false;
}

static const vector<u32string>& preimages()
{
    static const vector<u32string> r = []
    {
        vector<u32string> v(ref::MAXCP + 1);
        for (char32_t c = 0; c <= ref::MAXCP; ++c)
        {
            if (ref::upper(c) != c)
                v[ref::upper(c)] += c;
        }
        return v;
    }();
    return r;
}

static bool added_ci(const vector<Op>& ops, char32_t cp)
{
    auto up = ref::upper(cp);
    if (ref::upper(up) == up && added(ops, up))
        return true;
    if (up > ref::MAXCP)
        return false;
    for (auto c : preimages()[up])
    {
        if (added(ops, c))
            return true;
    }
    return false;
}

static string show_ops(const vector<Op>& ops)
{
    string r;
    for (auto& o : ops)
        r += show_op(o) + "; ";
    return r;
}

static void observe(Ctx& c, const CodepointSet& s, const vector<Op>& ops, char32_t cp, bool ci)
{
    bool in = added(ops, cp);
    MC_EQ(c, s.contains(cp), in != s.negated, "%s%scontains(%s)", show_ops(ops).c_str(), s.negated ? "negated; " : "", show(cp).c_str());
    if (ci)
    {
        bool want = added_ci(ops, cp) != s.negated;
        MC_EQ(c, s.case_insensitive_contains(cp), want, "%s%scase_insensitive_contains(%s)", show_ops(ops).c_str(), s.negated ? "negated; " : "", show(cp).c_str());
        c.outcome(hash(std::u32string_view(&cp, 1)) * 4 + in * 2 + want);
    }
}

static void history(Ctx& c, const vector<Op>& ops, std::u32string_view probes, bool ci, bool every_step)
{
    CodepointSet s;
    c.sample([&] { return show_ops(ops) + fmt("%zu probes", probes.size()); });
    vector<Op> done;
    for (size_t k = 0; k < ops.size(); ++k)
    {
        apply(s, ops[k]);
        done.push_back(ops[k]);
        if (!every_step && k + 1 < ops.size())
            continue;
        c.state();
        for (auto p : probes)
            observe(c, s, done, p, ci);
        CodepointSet n = s;
        n.negated = true;
        for (auto p : probes)
            observe(c, n, done, p, ci);
    }
    if (ops.empty())
    {
        for (auto p : probes)
        {
            observe(c, s, done, p, ci);
            s.negated = true;
            observe(c, s, done, p, ci);
            s.negated = false;
        }
    }
}

static void list(Ctx& c, const u32string& chars, char32_t cp)
{
    MC_EQ(c, contains(chars, cp), chars.find(cp) != u32string::npos, "contains(%s, %s)", show(chars).c_str(), show(cp).c_str());
    bool want = false;
    for (auto x : chars)
        want |= ref::upper(x) == ref::upper(cp);
    MC_EQ(c, case_insensitive_contains(chars, cp), want, "case_insensitive_contains(%s, %s)", show(chars).c_str(), show(cp).c_str());
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    {
        // A small universe: every history of operations over 0..5.
        vector<Op> ops;
        for (char32_t a = 0; a < 6; ++a)
            ops.push_back({0, a, 0, U""});
        for (char32_t a = 0; a < 5; ++a)
        {
            for (char32_t b = 0; b < 5; ++b)
            {
                if (a != b)
                    ops.push_back({1, a, b, U""});
            }
        }
        ops.push_back({2, 0, 0, U"\1\2\3"s});
        ops.push_back({2, 0, 0, U"\3\2\5\6"s});
        ops.push_back({2, 0, 0, U""s});
        for (size_t shift : {size_t(0), size_t('x'), size_t(0x10FFFA), size_t(0xFFFFFFFA)})
        {
            auto o = ops;
            for (auto& x : o)
            {
                x.a += char32_t(shift), x.b += char32_t(shift);
                for (auto& y : x.list)
                    y += char32_t(shift);
            }
            if (shift == 0xFFFFFFFA)
                o.erase(std::remove_if(o.begin(), o.end(), [](auto& x) { return x.kind == 2; }), o.end());
            unsigned n = T ? (shift ? 4 : 5) : shift ? 3 : 4;
            Sequences q{o.size(), 0, n};
            u32string probes;
            for (int k = -2; k < 10; ++k)
                probes += char32_t(shift + k);
            h.add(fmt("histories-%zx", shift), fmt("every history of up to %u of %zu operations (single, ranges in both orders, lists) on the code points from %zx; 12 probes, both polarities", n, o.size(), shift),
                  q.count(), [=](Ctx& c, uint64_t i)
            {
                vector<unsigned> v;
                q.get(i, v);
                vector<Op> x;
                for (auto k : v)
                    x.push_back(o[k]);
                history(c, x, probes, shift <= 0x110000, false);
            }, 64);
        }
    }
    {
        // Runs of single code points: ascending, descending, repeated, with gaps.
        Sequences q{6, 0, T ? 9u : 7u};
        h.add("runs", fmt("every sequence of up to %u of 6 code points added one by one (also as one list)", q.max_len), q.count(), [=](Ctx& c, uint64_t i)
        {
            vector<unsigned> v;
            q.get(i, v);
            vector<Op> x;
            u32string l;
            for (auto k : v)
            {
                x.push_back({0, U'p' + k, 0, U""});
                l += U'p' + k;
            }
            auto probes = U"oPpqrstuvwUV"sv;
            history(c, x, probes, true, true);
            history(c, {{2, 0, 0, l}}, probes, true, false);
            for (auto p : probes)
                list(c, l, p);
        }, 64);
    }
    {
        h.add("every-codepoint", "every code point alone, in ranges of 1-3 around it, and in a list: membership of it, its neighbours, and everything with the same upper case", 0x110000 / 64, [](Ctx& c, uint64_t blk)
        {
            for (char32_t a = char32_t(blk * 64); a < (blk + 1) * 64; ++a)
            {
                u32string probes{a, a + 1, a - 1, ref::upper(a), ref::lower(a), ref::title(a), char32_t(a ^ 0x20), 0, 0x10FFFF, 0x110000, 0xFFFFFFFF};
                probes += preimages()[a];
                probes += preimages()[ref::upper(a)];
                history(c, {{0, a, 0, U""}}, probes, true, false);
                history(c, {{1, a, a + 1, U""}}, probes, true, false);
                if (a)
                    history(c, {{1, a - 1, a + 1, U""}, {0, a + 2, 0, U""}}, probes, true, false);
                for (auto p : probes)
                {
                    list(c, u32string{a}, p);
                    list(c, u32string{'1', p, '2'}, a);
                }
            }
        }, 8);
    }
    {
        vector<std::pair<char32_t, char32_t>> rs = {{0, 0x7F}, {'A', 'Z'}, {'a', 'z'}, {'Z', 'a'}, {0x80, 0x7FF}, {0x100, 0x17F}, {0x130, 0x131}, {0x1C4, 0x1C6}, {0x370, 0x3FF}, {0x1E00, 0x1EFF}, {0x2100, 0x214F},
            {0x2C00, 0x2DFF}, {0xA640, 0xA7FF}, {0xAB30, 0xABBF}, {0xFF00, 0xFFEF}, {0x10400, 0x1044F}, {0x10570, 0x105FF}, {0, 0x10FFFF}, {0x110000, 0xFFFFFFFF}, {0, 0xFFFFFFFF}, {0x7A, 0x7A}, {0xFF, 0xFF}, {0x212A, 0x212B}};
        h.add("ranges", fmt("case-insensitive membership of every code point in %zu ranges", rs.size()), rs.size() * 0x1100, [=](Ctx& c, uint64_t i)
        {
            auto [a, b] = rs[i / 0x1100];
            CodepointSet s;
            s.add_range(a, b);
            vector<Op> ops{{1, a, b, U""}};
            for (char32_t cp = char32_t(i % 0x1100 * 256), n = 0; n < 256; ++n, ++cp)
            {
                if (b - a > 0x1000 && b <= 0x10FFFF && n % 64)
                    continue;
                observe(c, s, ops, cp, true);
            }
            c.state();
        }, 32);
    }
    {
        // Cased letters against every set of two ranges over a block with many mappings.
        auto al = U"\u00B5\u00DF\u00E5\u00FF\u0131\u017F\u01C5\u0345\u03C2\u03F4\u1E9B\u1E9E\u1FBE\u2126\u212A\u212BIKSik"sv;
        h.add("range-pairs", fmt("every range between two of %zu code points with peculiar case, plus every third code point", al.size()), al.size() * al.size() * al.size(), [=](Ctx& c, uint64_t i)
        {
            size_t n = al.size();
            vector<Op> ops{{1, al[i % n], al[i / n % n], U""}, {0, al[i / n / n], 0, U""}};
            history(c, ops, al, true, false);
        }, 16);
    }
    {
        h.add("large", "sets of k ranges and lists of k code points, k up to 300", 300, [](Ctx& c, uint64_t k)
        {
            CodepointSet s;
            u32string l;
            for (uint64_t i = 0; i < k; ++i)
            {
                auto cp = char32_t(0x1000 + (i * 7919) % 1009 * 3);
                s.add_codepoint(cp);
                l += cp;
            }
            std::set<char32_t> m(l.begin(), l.end());
            for (char32_t cp = 0xFF0; cp < 0x1000 + 3100; ++cp)
            {
                MC_EQ(c, s.contains(cp), m.count(cp) == 1, "%s among %d spread code points", show(cp).c_str(), int(k));
                MC_EQ(c, contains(l, cp), m.count(cp) == 1, "%s in a list of %d", show(cp).c_str(), int(k));
            }
            c.state();
        }, 4);
    }
    {
        // n ranges in one order or another, and one that lies across them.
        vector<size_t> ns;
        for (size_t n = 1; n <= 40; ++n)
            ns.push_back(n);
        for (size_t n : {63, 64, 65, 100, 127, 128, 129, 255, 256, 257})
            ns.push_back(n);
        if (T)
            ns.insert(ns.end(), {511, 512, 513, 1023, 1024, 1025});
        static const char* const ORDERS[] = {"ascending", "descending", "from both ends", "shuffled", "twice"};
        static const char* const SPECIAL[] = {"none", "over all", "over the first half", "over the last half", "over two", "reversed", "the first once more", "the last once more", "far below", "far above"};
        h.add("many-ranges", fmt("sets of n ranges (%zu values of n up to %zu) of one or three code points, in 5 orders, with one of 9 other ranges at the beginning, in the middle or at the end: membership of all code points around them, both polarities", ns.size(), ns.back()),
              ns.size() * 5 * 10 * 3 * 2, [=](Ctx& c, uint64_t i)
        {
            size_t n = ns[i % ns.size()];
            i /= ns.size();
            auto order = i % 5;
            i /= 5;
            auto special = i % 10;
            i /= 10;
            auto place = i % 3;
            unsigned width = i / 3 ? 3 : 1;
            if (special == 0 && place)
                return;
            constexpr char32_t LOW = 0x400, STEP = 5;
            vector<CodepointRange> rs;
            for (size_t k = 0; k < n; ++k)
            {
                size_t at = order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? (k % 2 ? n - 1 - k / 2 : k / 2) : order == 3 ? (k * 7919 + 3) % n : k / 2 * 2 % n;
                auto first = char32_t(LOW + at * STEP);
                rs.push_back({first, first + width - 1});
            }
            char32_t top = char32_t(LOW + n * STEP);
            char32_t mid = char32_t(LOW + n / 2 * STEP);
            const CodepointRange extra[] = {{0, 0}, {LOW - 2, top + 2}, {LOW, mid + 1}, {mid, top}, {mid + 1, mid + STEP + 1}, {top, LOW}, rs.front(), rs.back(), {0x20, 0x21}, {0x10FFFE, 0x10FFFF}};
            if (special)
                rs.insert(rs.begin() + ptrdiff_t(place == 0 ? 0 : place == 1 ? rs.size() / 2 : rs.size()), extra[special]);
            CodepointSet added;
            CodepointSet assigned;
            assigned.ranges = rs;
            for (auto& r : rs)
            {
                if (r.first == r.second)
                    added.add_codepoint(r.first);
                else
                    added.add_range(r.first, r.second);
            }
            vector<char> in(top + 16);
            for (auto& r : rs)
            {
                for (auto x = r.first; x <= r.second && x < in.size(); ++x)
                    in[x] = 1;
            }
            c.sample([&] { return fmt("%zu ranges, %s, another: %s", n, ORDERS[order], SPECIAL[special]); });
            for (bool neg : {false, true})
            {
                added.negated = assigned.negated = neg;
                for (auto x = char32_t(0x1E); x < in.size(); x = x == 0x24 ? LOW - 6 : x + 1)
                {
                    c.state();
                    MC_EQ(c, added.contains(x), bool(in[x]) != neg, "%zu ranges, %s, another: %s: contains(%s)", n, ORDERS[order], SPECIAL[special], show(x).c_str());
                    MC_EQ(c, assigned.contains(x), bool(in[x]) != neg, "%zu ranges assigned, %s, another: %s: contains(%s)", n, ORDERS[order], SPECIAL[special], show(x).c_str());
                }
                for (char32_t x : {0x10FFFDu, 0x10FFFEu, 0x10FFFFu})
                    MC_EQ(c, added.contains(x), (special == 9 && x != 0x10FFFD) != neg, "%zu ranges, %s, another: %s: contains(%s)", n, ORDERS[order], SPECIAL[special], show(x).c_str());
                if (n > 40)
                    continue;
                for (auto x = LOW - 3; x < top + 3; ++x)
                {
                    auto up = ref::upper(x);
                    bool want = up < in.size() && in[up] && ref::upper(up) == up;
                    if (up <= ref::MAXCP)
                    {
                        for (auto y : preimages()[up])
                            want = want || (y < in.size() && in[y]);
                    }
                    MC_EQ(c, added.case_insensitive_contains(x), want != neg, "%zu ranges, %s, another: %s: case_insensitive_contains(%s)", n, ORDERS[order], SPECIAL[special], show(x).c_str());
                }
            }
            c.outcome(hash(string_view(in.data(), in.size())));
        }, 4);
    }
    {
        static const size_t NS[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257};
        h.add("long-lists", fmt("every code point with another form of upper case, and every 97th one, in lists of %zu sizes up to 257 at the beginning, in the middle and at the end: membership of it and of all its forms", std::size(NS)), 0x110000 / 256, [](Ctx& c, uint64_t blk)
        {
            for (char32_t a = char32_t(blk * 256); a < (blk + 1) * 256; ++a)
            {
                u32string forms{a, ref::upper(a), ref::lower(a), ref::title(a)};
                forms += preimages()[a];
                forms += preimages()[ref::upper(a)];
                if (forms == u32string(4, a) && a % 97)
                    continue;
                forms += {char32_t(a ^ 0x20), char32_t(a + 1), char32_t(0x4E01)};
                for (auto n : NS)
                {
                    u32string l;
                    for (size_t k = 0; k < n; ++k)
                        l += char32_t((n % 2 ? 0x4E00 : '0') + k * 7 % 10);
                    for (size_t at : {size_t(0), n / 2, n - 1})
                    {
                        c.state();
                        auto m = l;
                        m[at] = a;
                        for (auto p : forms)
                            list(c, m, p);
                    }
                }
            }
        }, 8);
    }
}
