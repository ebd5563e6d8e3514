// C05: characters (a base and its combining marks) partition the string.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"

using namespace mc;
using namespace ystring;

static void all(Ctx& c, const string& str, bool deep = true)
{
    string_view s(str);
    auto chars = ref::characters(s);
    size_t n = chars.size();
    c.sample([&] { return fmt("%s has %zu characters", show(str).c_str(), n); });
    c.state();
    c.outcome(hash(str));
    MC_EQ(c, count_chars(s), n, "count_chars(%s)", show(s).c_str());
    string rev;
    for (size_t k = n; k-- > 0;)
        rev += s.substr(chars[k].b, chars[k].e - chars[k].b);
    MC_EQ(c, reverse(s), rev, "reverse(%s)", show(s).c_str());
    auto N = ptrdiff_t(n);
    vector<ptrdiff_t> idx;
    for (ptrdiff_t i = -N - 2; i <= N + 2; ++i)
    {
        if (deep || i < -N + 3 || i > N - 3 || (i > -4 && i < 4))
            idx.push_back(i);
    }
    idx.push_back(PTRDIFF_MAX);
    idx.push_back(PTRDIFF_MIN);
    for (auto i : idx)
    {
        ptrdiff_t k = i < 0 ? (i < -N ? -1 : N + i) : i;
        size_t pos = k < 0 || k > N ? SIZE_MAX : k == N ? s.size() : chars[size_t(k)].b;
        MC_EQ(c, get_char_pos(s, i), pos, "get_char_pos(%s, %td)", show(s).c_str(), i);
        auto r = get_char_range(s, i);
        c.call();
        if (k < 0 || k >= N)
            MC_OK(c, !r && r.length == 0, "get_char_range(%s, %td): got %s, expected an empty range", show(s).c_str(), i, show(r).c_str());
        else
            MC_OK(c, is_range(r, chars[size_t(k)].b, chars[size_t(k)].e), "get_char_range(%s, %td): got %s, expected %s", show(s).c_str(),
                  i, show(r).c_str(), show(chars[size_t(k)]).c_str());
        c.state();
    }
    auto segs = ref::segment(s);
    for (size_t k = 0; k <= segs.size(); ++k)
    {
        if (!deep && k > 4 && k + 4 < segs.size())
            continue;
        size_t off = k < segs.size() ? segs[k].b : s.size();
        // Forward: the code point here and all marks that follow it.
        size_t e = off;
        if (k < segs.size())
        {
            size_t j = k + 1;
            while (j < segs.size() && ref::is_mark(segs[j].cp))
                ++j;
            e = segs[j - 1].e;
        }
        auto r = get_next_char_range(s, off);
        c.call();
        MC_OK(c, is_range(r, off, e), "get_next_char_range(%s, %zu): got %s, expected end %zu", show(s).c_str(), off, show(r).c_str(), e);
        // Backward: marks before here and the code point before them.
        size_t b = off;
        for (size_t j = k; j-- > 0;)
        {
            b = segs[j].b;
            if (!ref::is_mark(segs[j].cp))
                break;
        }
        r = get_prev_char_range(s, off);
        c.call();
        MC_OK(c, is_range(r, b, off), "get_prev_char_range(%s, %zu): got %s, expected start %zu", show(s).c_str(), off, show(r).c_str(), b);
        c.state();
    }
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    {
        StringSpace sp(us(U"a\u0301\u00E9\u20AC\u20DD\U0001D165\U0001F600\u0903"), 0, T ? 7 : 6);
        h.add("strings", fmt("all strings of up to %d of 8 code points: bases of 1-4 bytes and marks of 2-4 bytes", T ? 7 : 6), sp.count(),
              [sp](Ctx& c, uint64_t i) { all(c, sp.get(i)); }, 64);
    }
    {
        StringSpace sp(us(U"a\u0301\U0001D165"), 7, T ? 11 : 9);
        h.add("long-strings", fmt("all strings of 7 to %d of a letter and two marks", T ? 11 : 9), sp.count(),
              [sp](Ctx& c, uint64_t i) { all(c, sp.get(i)); }, 64);
    }
    h.add("all-codepoints", "every code point in 6 positions relative to bases and marks", 0x110000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            auto e = u(cp), m = u(0x301), M = u(0x1D165);
            for (auto& s : {e, "a" + e, e + "a", e + m, "a" + m + e + M, e + e + "a"})
                all(c, s);
        }
    }, 8);
    {
        auto r = reps();
        uint64_t n = r.size();
        h.add("triples", fmt("all triples of representative code points, %llu x %llu x 40", (unsigned long long)n, (unsigned long long)n), n * n,
              [=](Ctx& c, uint64_t i)
        {
            for (size_t k = 0; k < 40; ++k)
                all(c, u(r[i / n]) + u(r[i % n]) + u(r[(i + k * 5) % n]));
        }, 16);
    }
    {
        StringSpace sp(byte_classes(), 1, T ? 5 : 4);
        h.add("malformed", fmt("all malformed strings of up to %d bytes over 16 classes, also after and before well-formed text: must throw", T ? 5 : 4),
              sp.count(), [sp](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            if (ref::valid(s))
            {
                all(c, s);
                return;
            }
            c.sample([&] { return "count_chars and reverse of " + show(s) + " must throw"; });
            for (auto& t : {s, "a\xCC\x81" + s, s + "e\xCC\x81"})
            {
                if (ref::valid(t))
                    continue;
                c.state();
                MC_THROWS(c, count_chars(t), "count_chars(%s)", show(t).c_str());
                MC_THROWS(c, reverse(t), "reverse(%s)", show(t).c_str());
            }
        }, 64);
    }
    {
        auto ks = pump_counts(T);
        vector<string> ends = {"", "a", u(0x301), u(0x1F600), "a" + u(0x1D165)};
        vector<std::array<string, 3>> uvw;
        for (auto& v : vector<string>{"a", u(0x301), u(0x20AC), u(0x1D165), "a" + u(0x301), u(0x1F600) + u(0x20DD) + u(0x301)})
        {
            for (auto& a : ends)
            {
                for (auto& b : ends)
                    uvw.push_back({a, v, b});
            }
        }
        h.add("pumped", fmt("u v^k w: 5 prefixes and suffixes, 6 repeated parts, %zu values of k up to 4097", ks.size()), uvw.size() * ks.size(),
              [=](Ctx& c, uint64_t i)
        {
            auto& [a, v, b] = uvw[i % uvw.size()];
            size_t k = ks[i / uvw.size()];
            if (k > 4097 || (k > 300 && (i % uvw.size()) % 7))
                return;
            all(c, a + repeat(v, k) + b, false);
        }, 4);
    }
    h.add("wide-indexes", fmt("%zu indexes (2^k +- 0..3 and their negations) in 6 texts", wide_numbers().size()), 6, [](Ctx& c, uint64_t i)
    {
        static const string texts[] = {"", "a", "a\xCC\x81" "b", u(0x1F600) + "xyz", u(0x301), repeat("a" + u(0x301), 300)};
        auto& s = texts[i];
        auto chars = ref::characters(s);
        auto N = ptrdiff_t(chars.size());
        c.sample([&] { return "indexes far outside " + show(s); });
        for (auto k : wide_numbers())
        {
            c.state();
            bool in = k >= -N && k < N, end = k == N;
            MC_EQ(c, get_char_pos(s, k), in ? chars[size_t(k < 0 ? k + N : k)].b : end ? s.size() : SIZE_MAX, "get_char_pos(%s, %td)", show(s).c_str(), k);
            auto r = get_char_range(s, k);
            c.call();
            MC_OK(c, in ? is_range(r, chars[size_t(k < 0 ? k + N : k)].b, chars[size_t(k < 0 ? k + N : k)].e) : !r && r.length == 0, "get_char_range(%s, %td): got %s", show(s).c_str(), k, show(r).c_str());
            c.outcome(in * 2 + end);
        }
    });
    h.add("long-characters", "one character of 2^k +- 1 marks, up to 2^20, alone and between others", 3 * (T ? 21 : 18), [](Ctx& c, uint64_t i)
    {
        size_t n = (size_t(1) << (i / 3)) + i % 3 - 1;
        c.sample([&] { return fmt("a character of %zu marks", n); });
        for (auto& m : {u(0x301), u(0x20DD), u(0x1D165)})
        {
            for (auto [a, b] : {std::pair(string("a"), string()), std::pair(string(), string("z")), std::pair("x" + u(0x20AC), u(0x1F600) + "z")})
            {
                auto s = a + repeat(m, n) + b;
                size_t first = a.empty() ? 0 : ref::segment(a).back().b, end = s.size() - b.size(), len = end - first;
                size_t before = a.size() > 1, after = b.empty() ? 0 : b.size() > 1 ? 2 : 1, one = len != 0;
                c.state();
                MC_EQ(c, count_chars(s), before + one + after, "count_chars(%s, %zu marks, %s)", show(a).c_str(), n, show(b).c_str());
                if (!len)
                    continue;
                auto r = get_char_range(s, ptrdiff_t(before));
                MC_OK(c, is_range(r, first, end), "get_char_range(%s, %zu marks, %s): got %s", show(a).c_str(), n, show(b).c_str(), show(r).c_str());
                r = get_char_range(s, -ptrdiff_t(after) - 1);
                MC_OK(c, is_range(r, first, end), "get_char_range(%s, %zu marks, %s) from the end: got %s", show(a).c_str(), n, show(b).c_str(), show(r).c_str());
                r = get_next_char_range(s, first);
                MC_OK(c, is_range(r, first, end), "get_next_char_range(%s, %zu marks, %s): got %s", show(a).c_str(), n, show(b).c_str(), show(r).c_str());
                r = get_prev_char_range(s, end);
                MC_OK(c, is_range(r, first, end), "get_prev_char_range(%s, %zu marks, %s): got %s", show(a).c_str(), n, show(b).c_str(), show(r).c_str());
                auto want = string(ref::codepoints(b).empty() ? "" : b.size() > 1 ? "z" + u(0x1F600) : "z") + s.substr(first, len) + a.substr(0, a.size() > 1 ? 1 : 0);
                auto got = reverse(s);
                MC_OK(c, got == want, "reverse(%s, %zu marks, %s)", show(a).c_str(), n, show(b).c_str());
                c.call();
                c.outcome(len);
            }
        }
    }, 1);
    add_blocks(h, vector<string>{"a", "\xCC\x81"}, block_symbols(), few_block_symbols(), [](Ctx& c, const string& s, const string&, const string&)
    {
        all(c, s, false);
    });
}
