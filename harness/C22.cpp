// C22: JSON escaping.
#include "common.hpp"
#include "Ystring/Escape.hpp"
#include "Ystring/Unescape.hpp"

using namespace mc;
using namespace ystring;

static bool special(unsigned char b) { return b < 0x20 || b == '"' || b == '\\'; }

static string escape_model(string_view s, bool upper)
{
    string r;
    for (unsigned char b : s)
    {
        switch (b)
        {
        case 8: r += "\\b"; break;
        case 9: r += "\\t"; break;
        case 10: r += "\\n"; break;
        case 12: r += "\\f"; break;
        case 13: r += "\\r"; break;
        case '"': r += "\\\""; break;
        case '\\': r += "\\\\"; break;
        default:
            if (b < 0x20)
                r += fmt(upper ? "\\u%04X" : "\\u%04x", b);
            else
                r += char(b);
        }
    }
    return r;
}

static void text(Ctx& c, string_view s, bool offsets = true)
{
    c.state();
    auto want = escape_model(s, true), other = escape_model(s, false);
    c.sample([&] { return "escape_json(" + show(s) + ") = " + show(want); });
    auto got = escape_json(s);
    if (got != other)
        MC_EQ(c, got, want, "escape_json(%s)", show(s).c_str());
    else
        c.call();
    bool has = got != s;
    MC_EQ(c, has_escapable_chars(s), has, "has_escapable_chars(%s)", show(s).c_str());
    MC_EQ(c, unescape(got), s, "unescape(escape_json(%s))", show(s).c_str());
    MC_EQ(c, bool(find_first_escapable_char(s)), has, "find_first_escapable_char(%s)", show(s).c_str());
    size_t step = offsets ? 1 : s.size() / 5 + 1;
    for (size_t o = 0; o <= s.size(); o += step)
    {
        size_t p = o;
        while (p < s.size() && !special((unsigned char)s[p]))
            ++p;
        auto r = find_first_escapable_char(s, o);
        c.call();
        MC_OK(c, p == s.size() ? !r && r.length == 0 : is_range(r, p, p + 1), "find_first_escapable_char(%s, %zu): got %s, expected %zu", show(s).c_str(), o, show(r).c_str(), p);
        if (o == 0)
            MC_OK(c, find_first_escapable_char(s) == r, "find_first_escapable_char(%s) differs from offset 0", show(s).c_str());
    }
    c.outcome(hash(got));
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    h.add("three-bytes", "every string of up to 2 bytes and every 3-byte string", 256 * 256, [](Ctx& c, uint64_t i)
    {
        char b[3] = {char(i / 256), char(i % 256), 0};
        if (i == 0)
            text(c, "");
        if (i < 256)
            text(c, string_view(b + 1, 1));
        text(c, string_view(b, 2));
        for (int k = 0; k < 256; ++k)
        {
            b[2] = char(k);
            text(c, string_view(b, 3));
        }
    }, 64);
    {
        auto al = bytes({'a', '"', '\\', '/', 0, 1, 8, 9, 10, 11, 12, 13, 0x1F, 0x20, 0x7F, 'n', 'u', '0', 0x80, 0xC3, 0xA9});
        StringSpace sp(al, 4, T ? 5 : 4);
        h.add("sequences", fmt("all strings of 4 to %d of %zu bytes around every special case", T ? 5 : 4, al.size()), sp.count(), [=](Ctx& c, uint64_t i) { text(c, sp.get(i)); }, 64);
        StringSpace few(bytes({'a', '"', '\\', '\n', 1, 0xE9}), 0, T ? 9 : 7);
        h.add("long-sequences", fmt("all strings of up to %d of 6 bytes", T ? 9 : 7), few.count(), [=](Ctx& c, uint64_t i) { text(c, few.get(i)); }, 64);
    }
    h.add("all-codepoints", "every code point inside a string", 0x110000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            text(c, u(cp));
            text(c, "\"" + u(cp) + "\\" + u(cp) + "\n");
        }
    });
    {
        auto ks = pump_counts(T);
        vector<string> vs = {"a", "\"", "\\", "\n", "\x01", "ab\"", u(0x20AC), "\\\"x"};
        h.add("pumped", fmt("v^k, v^k w and w v^k for %zu counts k, 8 v", ks.size()), ks.size() * vs.size(), [=](Ctx& c, uint64_t i)
        {
            auto s = repeat(vs[i % vs.size()], ks[i / vs.size()]);
            text(c, s, false);
            text(c, s + "\"", false);
            text(c, "\x1F" + s + "z", false);
        }, 2);
    }
    add_blocks(h, vector<string>{"a", "A"}, block_symbols(true), few_block_symbols(true), [](Ctx& c, const string& s, const string&, const string&)
    {
        text(c, s, false);
    });
}
