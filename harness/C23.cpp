// C23: unescape, find_first_escaped_char, has_escaped_chars.
#include "common.hpp"
#include "Ystring/Unescape.hpp"

using namespace mc;
using namespace ystring;

struct Token
{
    bool escape = false, ok = true; // ok: complete
    size_t b = 0, e = 0;
    bool too_large = false;
    uint64_t value = 0;
    char kind = 0;
};

static int hexval(char ch)
{
    if (ch >= '0' && ch <= '9')
        return ch - '0';
    if (ch >= 'a' && ch <= 'f')
        return ch - 'a' + 10;
    if (ch >= 'A' && ch <= 'F')
        return ch - 'A' + 10;
    return -1;
}

// The escape sequence that starts at the backslash s[i].
static Token sequence(string_view s, size_t i)
{
    Token t;
    t.escape = true;
    t.b = i;
    t.e = i + 1;
    if (i + 1 >= s.size())
    {
        t.ok = false;
        return t;
    }
    char k = s[i + 1];
    t.kind = k;
    auto digits = [&](size_t from, size_t min, size_t max, int base)
    {
        size_t j = from;
        while (j < s.size() && j - from < max && hexval(s[j]) >= 0 && hexval(s[j]) < base)
        {
            if (t.value <= 0xFFFFFFFF)
                t.value = t.value * base + hexval(s[j]);
            ++j;
        }
        t.e = j;
        t.ok = j - from >= min;
        t.too_large = t.value > 0x10FFFF;
    };
    static const char* simple = "abfnrtv";
    static const char value[] = "\a\b\f\n\r\t\v";
    if (k == 'x' || k == 'X')
        digits(i + 2, 2, SIZE_MAX, 16);
    else if (k == 'u')
        digits(i + 2, 4, 4, 16);
    else if (k == 'U')
        digits(i + 2, 8, 8, 16);
    else if (k >= '0' && k <= '7')
        digits(i + 1, 1, 3, 8);
    else if (k && strchr(simple, k))
        t.value = uint64_t(value[strchr(simple, k) - simple]), t.e = i + 2;
    else if ((unsigned char)k < 0x80)
        t.value = uint64_t(k), t.e = i + 2;
    else
        t.ok = false;
    return t;
}

// False if the string has an invalid sequence.
static bool model(string_view s, string& out, bool& first_ok, size_t& fb, size_t& fe, size_t from = 0)
{
    out.clear();
    first_ok = true;
    fb = fe = SIZE_MAX;
    bool good = true;
    for (size_t i = from; i < s.size();)
    {
        if (s[i] != '\\')
        {
            out += s[i++];
            continue;
        }
        auto t = sequence(s, i);
        if (fb == SIZE_MAX)
            fb = t.b, fe = t.e, first_ok = t.ok;
        if (!t.ok || t.too_large)
            return false;
        if (t.kind == 'u' && t.value >= 0xD800 && t.value <= 0xDBFF && t.e + 1 < s.size() && s[t.e] == '\\' && s[t.e + 1] == 'u')
        {
            auto v = sequence(s, t.e);
            if (v.ok && v.value >= 0xDC00 && v.value <= 0xDFFF)
            {
                t.value = 0x10000 + (t.value - 0xD800) * 0x400 + (v.value - 0xDC00);
                t.e = v.e;
            }
        }
        ref::enc_to(out, char32_t(t.value));
        i = t.e;
    }
    return good;
}

static void text(Ctx& c, string_view s, bool offsets = true)
{
    string want;
    bool first_ok;
    size_t fb, fe;
    bool ok = model(s, want, first_ok, fb, fe);
    c.state();
    c.sample([&] { return ok ? "unescape(" + show(s) + ") = " + show(want) : "unescape(" + show(s) + ") throws"; });
    // in place, between canaries
    string buf = "<<" + string(s) + ">>";
    bool threw = false;
    size_t n = SIZE_MAX;
    try
    {
        n = unescape(buf.data() + 2, s.size());
    }
    catch (const YstringException&)
    {
        threw = true;
    }
    c.call();
    MC_OK(c, buf[0] == '<' && buf[1] == '<' && buf[s.size() + 2] == '>' && buf[s.size() + 3] == '>', "unescape of %s in place wrote outside the given length", show(s).c_str());
    if (ok)
    {
        MC_OK(c, !threw, "unescape of %s in place threw", show(s).c_str());
        MC_OK(c, n == want.size() && n <= s.size() && string_view(buf).substr(2, n) == want, "unescape of %s in place: got length %zu, %s, expected %s", show(s).c_str(), n,
              show(string_view(buf).substr(2, std::min(n, s.size()))).c_str(), show(want).c_str());
        MC_EQ(c, unescape(string(s)), want, "unescape(%s)", show(s).c_str());
        c.outcome(hash(want));
    }
    else
    {
        MC_OK(c, threw, "unescape of %s in place did not throw", show(s).c_str());
        MC_THROWS(c, unescape(string(s)), "unescape(%s)", show(s).c_str());
    }
    string dummy;
    for (size_t o = 0; o <= s.size(); o += offsets ? 1 : s.size() / 3 + 1)
    {
        if (o)
            model(s, dummy, first_ok, fb, fe, o);
        if (!first_ok)
        {
            MC_THROWS(c, find_first_escaped_char(s, o), "find_first_escaped_char(%s, %zu)", show(s).c_str(), o);
            if (o == 0)
                MC_THROWS(c, has_escaped_chars(s), "has_escaped_chars(%s)", show(s).c_str());
            continue;
        }
        auto r = find_first_escaped_char(s, o);
        c.call();
        MC_OK(c, fb == SIZE_MAX ? !r && r.length == 0 : is_range(r, fb, fe), "find_first_escaped_char(%s, %zu): got %s, expected %s", show(s).c_str(), o, show(r).c_str(),
              fb == SIZE_MAX ? "nothing" : show(ref::Span{fb, fe}).c_str());
        if (o == 0)
        {
            MC_OK(c, find_first_escaped_char(s) == r, "find_first_escaped_char(%s) differs from offset 0", show(s).c_str());
            MC_EQ(c, has_escaped_chars(s), fb != SIZE_MAX, "has_escaped_chars(%s)", show(s).c_str());
        }
    }
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    {
        auto al = bytes({'\\', 'x', 'u', 'U', '0', '7', '8', 'A', 'f', 'n', 'g', 0xC3});
        StringSpace sp(al, 0, T ? 7 : 6);
        h.add("characters", fmt("all strings of up to %d of 12 bytes: backslash, the letters with meaning, digits of each kind, a non-ASCII byte", T ? 7 : 6), sp.count(), [=](Ctx& c, uint64_t i) { text(c, sp.get(i)); }, 64);
    }
    {
        vector<string> tok = {"\\x", "\\X", "\\u", "\\U", "\\", "\\\\", "0", "00", "41", "D83D", "DE00", "0000", "0010", "FFFF", "F", "g", "\\101", "\\7", "\\n", "n", u(0x20AC)};
        StringSpace sp(tok, 0, T ? 5 : 4);
        h.add("tokens", fmt("all strings of up to %d of %zu pieces of escape sequences", T ? 5 : 4, tok.size()), sp.count(), [=](Ctx& c, uint64_t i) { text(c, sp.get(i)); }, 64);
    }
    {
        vector<string> tok = {"\\uD800", "\\uDBFF", "\\uDC00", "\\uDFFF", "\\uD7FF", "\\uE000", "\\ud83d", "\\U0000D83D", "\\U0000DE00", "\\xDC00", "a", "\\", "\\u", "\\uDE", "\\\\", "\\n"};
        StringSpace sp(tok, 0, T ? 5 : 4);
        h.add("surrogates", fmt("all strings of up to %d of %zu surrogate escapes, near-surrogates, and partial ones", T ? 5 : 4, tok.size()), sp.count(), [=](Ctx& c, uint64_t i) { text(c, sp.get(i)); }, 64);
    }
    h.add("all-short-escapes", "backslash and every byte, then every byte, and after text; every value of \\u in both letter cases", 65536, [](Ctx& c, uint64_t i)
    {
        char a = char(i / 256), b = char(i % 256);
        text(c, string{'\\', a, b});
        text(c, string{'\\', a, b, '0', '1'});
        text(c, string{'z', '\\', a, '\\', b});
        if (i < 256)
            text(c, string{'\\', b});
        text(c, fmt("\\u%04X", unsigned(i)));
        text(c, fmt("-\\u%04x0", unsigned(i)));
        text(c, fmt("\\u%04x\\uDC00", unsigned(i)));
        text(c, fmt("\\uD800\\u%04X!", unsigned(i)));
        text(c, fmt("\\%03o", unsigned(i % 512)));
        text(c, fmt("\\%o%c", unsigned(i % 512), int(i / 512 + ' ')));
    }, 64);
    h.add("all-values", "every code point and 2^17 values above as \\U, \\x with 0-3 leading zeros and \\X; large values throw", 0x130000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (unsigned v = unsigned(blk * 64); v < (blk + 1) * 64; ++v)
        {
            text(c, fmt("\\U%08X", v), false);
            text(c, fmt("\\U%08x0", v), false);
            text(c, fmt("\\x%02x", v), false);
            text(c, fmt("a\\X%0*Xg", 2 + v % 9, v), false);
        }
    });
    h.add("surrogate-pairs", "all pairs of \\u high and low surrogates", 1024, [](Ctx& c, uint64_t i)
    {
        for (unsigned k = 0; k < 1024; ++k)
            text(c, fmt("\\u%04X\\u%04x", unsigned(0xD800 + i), 0xDC00 + k), false);
    });
    h.add("large-hex", "\\U and \\x with every 32-bit value that is 2^a +- 2^b (+- 1), and \\x with up to 20 digits", 33 * 33, [](Ctx& c, uint64_t i)
    {
        uint64_t a = i / 33, b = i % 33;
        for (int64_t d = -1; d <= 1; ++d)
        {
            for (uint64_t v : {(1ull << a) + (1ull << b) + d, (1ull << a) - (1ull << b) + d})
            {
                if (int64_t(v) < 0)
                    continue;
                if (v <= 0xFFFFFFFF)
                    text(c, fmt("\\U%08llX", (unsigned long long)v));
                text(c, fmt("\\x%02llX", (unsigned long long)v));
                text(c, fmt("\\x%020llX", (unsigned long long)v));
                text(c, fmt("\\x%llX00000000", (unsigned long long)v));
                text(c, fmt("\\x%llXFFFFFFFFFFFFFFFF", (unsigned long long)v));
            }
        }
    });
    {
        auto ks = pump_counts(T);
        vector<std::array<string, 3>> uvw = {{"", "\\n", ""}, {"", "\\n", "\\"}, {"\\x", "0", "41"}, {"\\x", "0", "110000"}, {"\\x", "F", ""}, {"", "\\uD83D\\uDE00", ""}, {"", "\\uD83D", "\\uDE00"}, {"", "a", "\\t"},
            {"\\t", "a", "b"}, {"", "\\\\", "n"}, {"", "\\\\", "\\"}, {"", "\\7", "7"}, {"\\\"", u(0x20AC), "\\U0001F600"}, {"\\", "1", ""}, {"", "\\101a", ""}};
        h.add("pumped", fmt("u v^k w for %zu counts k, %zu (u, v, w)", ks.size(), uvw.size()), ks.size() * uvw.size(), [=](Ctx& c, uint64_t i)
        {
            auto& [a, v, b] = uvw[i % uvw.size()];
            text(c, a + repeat(v, ks[i / uvw.size()]) + b, false);
        }, 2);
    }
    {
        vector<string> parts = {"\\n", "\\\\", "\\x41", "\\101", "\\u20AC", "\\uD83D\\uDE00", "\\U0001F600", "\\\n", "a"};
        h.add("long", fmt("2^k +- 1 times each of %zu parts, up to 2^%d, alone and between others; and followed by a malformed escape", parts.size(), T ? 21 : 17), parts.size() * (T ? 22 : 18) * 3, [=](Ctx& c, uint64_t i)
        {
            auto& v = parts[i % parts.size()];
            auto k = i / parts.size();
            auto n = (size_t(1) << k / 3) + k % 3 - 1;
            auto r = repeat(v, n);
            text(c, r, false);
            text(c, "a" + r + "\\t\\", false);
            text(c, "\\t" + r + "z\\n", false);
        }, 1);
    }
    add_blocks(h, vector<string>{"a", "\\n"}, block_symbols(true), few_block_symbols(true), [](Ctx& c, const string& s, const string&, const string&)
    {
        text(c, s, false);
    });
}
