// C24: unescape_next.
#include "common.hpp"
#include "Ystring/Unescape.hpp"

using namespace mc;
using namespace ystring;

static int hexval(char ch)
{
    if (ch >= '0' && ch <= '9')
        return ch - '0';
    if (ch >= 'a' && ch <= 'f')
        return ch - 'a' + 10;
    if (ch >= 'A' && ch <= 'F')
        return ch - 'A' + 10;
    return -1;
}

struct Answer
{
    int kind; // 0 nothing left, 1 a character, 2 throws, 3 a character or throws
    char32_t cp = 0;
    size_t end = 0; // what is consumed
    bool escaped = false;
};

static Answer model(string_view s)
{
    size_t i = 0;
    while (i + 1 < s.size() && s[i] == '\\' && s[i + 1] == '\n')
        i += 2;
    if (i == s.size())
        return {0, 0, i, false};
    auto plain = [&](size_t at, bool escaped) -> Answer
    {
        auto g = ref::segment(s.substr(at, 4));
        if (at >= s.size() || !g[0].ok)
            return {2};
        return {1, g[0].cp, at + g[0].e, escaped};
    };
    if (s[i] != '\\')
        return plain(i, false);
    if (i + 1 == s.size())
        return {2};
    auto number = [&](size_t from, size_t min, size_t max, int base) -> Answer
    {
        uint64_t v = 0;
        size_t j = from;
        while (j < s.size() && j - from < max && hexval(s[j]) >= 0 && hexval(s[j]) < base)
            v = v * base + hexval(s[j++]);
        if (j - from < min)
            return {2};
        return {v > 0x10FFFF ? 3 : 1, char32_t(v), j, true};
    };
    char k = s[i + 1];
    switch (k)
    {
    case 'a': return {1, 7, i + 2, true};
    case 'b': return {1, 8, i + 2, true};
    case 'f': return {1, 12, i + 2, true};
    case 'n': return {1, 10, i + 2, true};
    case 'r': return {1, 13, i + 2, true};
    case 't': return {1, 9, i + 2, true};
    case 'v': return {1, 11, i + 2, true};
    case 'x':
    case 'X':
        return number(i + 2, 1, 8, 16);
    case 'U':
        return number(i + 2, 8, 8, 16);
    case 'u':
    {
        auto a = number(i + 2, 4, 4, 16);
        if (a.kind == 1 && a.cp >= 0xD800 && a.cp <= 0xDBFF && s.substr(a.end, 2) == "\\u")
        {
            auto b = number(a.end + 2, 4, 4, 16);
            if (b.kind == 1 && b.cp >= 0xDC00 && b.cp <= 0xDFFF)
                return {1, 0x10000 + (a.cp - 0xD800) * 0x400 + (b.cp - 0xDC00), b.end, true};
        }
        return a;
    }
    default:
        if (k >= '0' && k <= '7')
            return number(i + 1, 1, 3, 8);
        return plain(i + 1, true);
    }
}

static void walk(Ctx& c, string_view s)
{
    c.sample([&]
    {
        auto a = model(s);
        return "unescape_next(" + show(s) + ") " + (a.kind == 0 ? "has nothing left" : a.kind == 2 ? "throws" : "returns " + show(a.cp)) + ", then the same from there";
    });
    auto view = s;
    while (true)
    {
        auto a = model(view);
        c.state();
        for (int with_flag = 0; with_flag < 2; ++with_flag)
        {
            auto v = view;
            // The flag is set, whatever it was.
            for (bool flag : {false, true})
            {
                bool f = flag;
                v = view;
                bool threw = false;
                std::optional<char32_t> r;
                try
                {
                    r = with_flag ? unescape_next(v, &f) : unescape_next(v);
                }
                catch (const YstringException&)
                {
                    threw = true;
                }
                c.call();
                if (threw)
                {
                    MC_OK(c, a.kind >= 2, "unescape_next(%s) threw", show(view).c_str());
                    MC_OK(c, v.data() == view.data() && v.size() == view.size(), "unescape_next(%s) threw, and the view is now %s", show(view).c_str(), show(v).c_str());
                    continue;
                }
                MC_OK(c, a.kind != 2, "unescape_next(%s) did not throw", show(view).c_str());
                if (a.kind == 0)
                {
                    MC_OK(c, !r, "unescape_next(%s) returned %s", show(view).c_str(), show(*r).c_str());
                    MC_OK(c, !with_flag || !f, "unescape_next(%s) returned nothing and set did_unescape", show(view).c_str());
                    MC_OK(c, v.empty(), "unescape_next(%s): nothing is left, but the view is %s", show(view).c_str(), show(v).c_str());
                    continue;
                }
                MC_OK(c, r && *r == a.cp, "unescape_next(%s) returned %s, expected %s", show(view).c_str(), r ? show(*r).c_str() : "nothing", show(a.cp).c_str());
                MC_OK(c, v.data() == view.data() + a.end && v.data() + v.size() == view.data() + view.size(), "unescape_next(%s) left %s, expected %s", show(view).c_str(), show(v).c_str(),
                      show(view.substr(a.end)).c_str());
                if (with_flag)
                    MC_OK(c, f == a.escaped, "unescape_next(%s) set did_unescape to %d", show(view).c_str(), int(f));
                c.outcome(*r * 2 + a.escaped);
            }
        }
        if (a.kind == 0)
            break;
        // After an error, resume behind the offending byte: the view is the caller's.
        view = view.substr(a.kind >= 2 ? 1 : a.end);
    }
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    {
        auto al = bytes({'\\', '\n', 'x', 'u', 'U', '0', '8', 'A', 'n', 'g', 0xC3, 0xA9});
        StringSpace sp(al, 0, T ? 7 : 6);
        h.add("characters", fmt("all strings of up to %d of 12 bytes, stepped to the end (past errors)", T ? 7 : 6), sp.count(), [=](Ctx& c, uint64_t i) { walk(c, sp.get(i)); }, 64);
    }
    {
        vector<string> tok = {"\\x", "\\X", "\\u", "\\U", "\\", "\\\n", "\\\\", "0", "41", "D83D", "DE00", "0010", "FFFF", "F", "g", "\\101", "\\7", "\\n", "\n", u(0x20AC), "\x80"};
        StringSpace sp(tok, 0, T ? 5 : 4);
        h.add("tokens", fmt("all strings of up to %d of %zu pieces of escape sequences", T ? 5 : 4, tok.size()), sp.count(), [=](Ctx& c, uint64_t i) { walk(c, sp.get(i)); }, 64);
    }
    {
        vector<string> tok = {"\\uD800", "\\uDBFF", "\\uDC00", "\\uDFFF", "\\uD7FF", "\\uE000", "\\ud83d", "\\U0000D83D", "\\U0000DE00", "\\xDC00", "a", "\\", "\\u", "\\uDE", "\\\n", "\\n", "\\\xE2"};
        StringSpace sp(tok, 0, T ? 5 : 4);
        h.add("surrogates", fmt("all strings of up to %d of %zu surrogate escapes, near-surrogates, and partial ones", T ? 5 : 4, tok.size()), sp.count(), [=](Ctx& c, uint64_t i) { walk(c, sp.get(i)); }, 64);
    }
    h.add("all-short-escapes", "backslash and every two bytes, also after escaped newlines; every value of \\u; octals", 65536, [](Ctx& c, uint64_t i)
    {
        char a = char(i / 256), b = char(i % 256);
        walk(c, string{'\\', a, b});
        walk(c, string{'\\', '\n', '\\', '\n', a, b});
        walk(c, string{'\\', a, b, '0', '1'});
        if (i < 256)
            walk(c, string{'\\', b});
        walk(c, fmt("\\u%04X", unsigned(i)));
        walk(c, fmt("-\\u%04x0", unsigned(i)));
        walk(c, fmt("\\u%04x\\uDC00", unsigned(i)));
        walk(c, fmt("\\uD800\\u%04X!", unsigned(i)));
        walk(c, fmt("\\%03o0", unsigned(i % 512)));
        walk(c, fmt("\\%o%c", unsigned(i % 512), int(i / 512 + ' ')));
    }, 64);
    h.add("all-values", "every code point and 2^17 values above as \\U, \\x with all lengths up to 8, \\X, plain and escaped", 0x130000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (unsigned v = unsigned(blk * 64); v < (blk + 1) * 64; ++v)
        {
            walk(c, fmt("\\U%08X", v));
            walk(c, fmt("\\U%08x0", v));
            walk(c, fmt("\\x%x", v));
            walk(c, fmt("\\\n\\X%0*Xg", int(1 + v % 9), v));
            walk(c, u(v));
            walk(c, "\\" + u(v));
        }
    });
    h.add("surrogate-pairs", "all pairs of \\u high and low surrogates", 1024, [](Ctx& c, uint64_t i)
    {
        for (unsigned k = 0; k < 1024; ++k)
            walk(c, fmt("\\u%04X\\u%04x", unsigned(0xD800 + i), 0xDC00 + k));
    });
    {
        StringSpace sp(byte_classes(), 0, T ? 5 : 4);
        h.add("bytes", fmt("all strings of up to %d of 16 byte classes, plain, escaped and after an escaped newline", T ? 5 : 4), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            walk(c, s);
            walk(c, "\\" + s);
            walk(c, "\\\n" + s);
        }, 64);
    }
    h.add("pumped", "u v^k w for k up to 300 (escaped newlines, digits, escapes)", 301 * 6, [](Ctx& c, uint64_t i)
    {
        static const char* uvw[6][3] = {{"", "\\\n", "a"}, {"", "\\\n", "\\"}, {"", "\\\n", ""}, {"\\x", "0", "1"}, {"", "\\n", "\\u12"}, {"", "\\uD83D", "\\uDE00"}};
        auto& [a, v, b] = uvw[i % 6];
        walk(c, a + repeat(v, i / 6) + b);
    }, 4);
}
