// C31: results do not depend on the locale of the process, and no call changes it.
// YS_LOCALES names the locales; LOCPATH holds them.
#include <clocale>
#include <cstdlib>
#include <locale>
#include <set>
#include <sstream>
#include "compared.hpp"

static const char* g_locale = "C";

// Digits in groups, a decimal comma, other names for true and false, and bytes
// from 80 on that are letters, spaces and digits.
struct Punct : std::numpunct<char>
{
    string do_grouping() const override { return "\1"; }
    char do_thousands_sep() const override { return '_'; }
    char do_decimal_point() const override { return ','; }
    string do_truename() const override { return "ja"; }
    string do_falsename() const override { return "nei"; }
};

struct Chars : std::ctype<char>
{
    static const mask* table()
    {
        static const auto t = []
        {
            static mask m[table_size];
            for (size_t k = 0; k < table_size; ++k)
            {
                m[k] = classic_table()[k];
                if (k >= 0x80)
                    m[k] = k % 4 == 0 ? space : k % 4 == 1 ? mask(upper | alpha | print | graph) : k % 4 == 2 ? mask(lower | alpha | print | graph) : mask(digit | xdigit | print | graph);
            }
            return &m[0];
        }();
        return t;
    }
    Chars() : std::ctype<char>(table()) {}
    char do_toupper(char c) const override { return c == 'i' ? char(0xDD) : std::ctype<char>::do_toupper(c); }
    char do_tolower(char c) const override { return c == 'I' ? char(0xFD) : std::ctype<char>::do_tolower(c); }
};

static const vector<string>& locales()
{
    static const auto v = []
    {
        vector<string> r;
        std::istringstream in(getenv("YS_LOCALES") ? getenv("YS_LOCALES") : "");
        string s;
        while (in >> s)
            r.push_back(s);
        return r;
    }();
    return v;
}

// 0 is C, then each locale for both C and C++, then the facets above.
static size_t settings() { return locales().size() + 2; }

static void choose(size_t k)
{
    static vector<std::locale> cpp;
    if (cpp.empty())
    {
        cpp.push_back(std::locale::classic());
        for (auto& l : locales())
            cpp.push_back(std::locale(l.c_str()));
        cpp.push_back(std::locale(std::locale(std::locale::classic(), new Punct), new Chars));
    }
    g_locale = k == 0 ? "C" : k <= locales().size() ? locales()[k - 1].c_str() : "with other facets";
    std::locale::global(cpp[k]);
    auto name = k && k <= locales().size() ? g_locale : "C";
    if (!setlocale(LC_ALL, name) || string(setlocale(LC_ALL, nullptr)) != name)
        throw Failure(fmt("the locale %s cannot be set", name));
}

template <typename F>
static void in_every_locale(Ctx& c, F f)
{
    for (size_t k = 0; k < settings(); ++k)
    {
        choose(k);
        begin_setting(k == 0, fmt("in the locale %s than in C", g_locale));
        auto before = std::locale();
        string name = setlocale(LC_ALL, nullptr);
        f();
        auto after = string(setlocale(LC_ALL, nullptr));
        MC_OK(c, std::locale() == before && after == name, "a call changes the locale %s to %s", name.c_str(), after.c_str());
        end_setting(c);
    }
    choose(0);
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    h.add("locales", fmt("%zu settings: do they differ?", settings()), 1, [](Ctx& c, uint64_t)
    {
        // The exploration would be empty if the locales were all alike.
        std::set<string> seen;
        for (size_t k = 0; k < settings(); ++k)
        {
            choose(k);
            string s;
            auto& f = std::use_facet<std::ctype<char>>(std::locale());
            for (int b = 0; b < 256; ++b)
            {
                s += char(f.toupper(char(b)));
                s += char('0' + isalpha(b) / 1 % 2 + 2 * !!isspace(b) + 4 * !!f.is(std::ctype_base::alpha, char(b)));
                s += char(toupper(b));
                s += char(tolower(b));
            }
            s += fmt("%.1f", 0.5) + (iswalpha(0xE9) ? "w" : "-") + char(MB_CUR_MAX);
            std::ostringstream os;
            os << 12345678;
            s += os.str();
            c.call();
            seen.insert(s);
        }
        choose(0);
        if (seen.size() + 3 < settings())
        {
            fprintf(stderr, "only %zu different locales\n", seen.size());
            g_shared->inconclusive = true;
        }
        c.sample([&] { return fmt("%zu different settings", seen.size()); });
    });
    {
        StringSpace sp(byte_classes(), 0, T ? 4 : 3);
        h.add("bytes", fmt("all strings of up to %d of 16 byte classes: every function of one string", T ? 4 : 3), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "every function on " + show(s); });
            in_every_locale(c, [&] { one_string({c, s}); });
        }, 4);
    }
    h.add("all-bytes", "all strings of one and of two bytes: every function of one string of one byte, the case, escape and trim functions of two", 256, [](Ctx& c, uint64_t i)
    {
        c.sample([&] { return fmt("%02X in front of each byte", unsigned(i)); });
        in_every_locale(c, [&]
        {
            string s(1, char(i));
            one_string({c, s});
            for (int b = 0; b < 256; ++b)
            {
                string t = s + char(b);
                In in{c, t};
                CALL(in, ystring::to_upper(t));
                CALL(in, ystring::to_lower(t));
                CALL(in, ystring::to_title(t));
                CALL(in, trim(t));
                CALL(in, escape_json(t));
                CALL(in, unescape("\\" + t));
                CALL(in, unescape("\\x" + t));
                CALL(in, unescape("\\u" + t + t));
                CALL(in, has_escaped_chars("\\" + t));
                CALL(in, find_first_newline(t));
                CALL(in, is_valid_utf8(t));
                CALL(in, ci::compare(t, "i"));
                CALL(in, ci::equal(s, string(1, char(b))));
                CALL(in, ([&]
                {
                    string_view v = t;
                    auto r = unescape_next(v);
                    return ::mix(v.size(), r.value_or(0x1FFFFF));
                }()));
            }
        });
    });
    {
        auto al = us(U"aAiI\u0131\u0130s\u0301\u0308\u00C4\u00DF\u3042\u3099\r\n \u0085\u00A0.,"s);
        al.push_back("\xCC");
        StringSpace sp(al, 1, T ? 4 : 3);
        h.add("texts", fmt("all strings of up to %d of %zu code points and bytes: every function of one string", T ? 4 : 3, al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "every function on " + show(s); });
            in_every_locale(c, [&] { one_string({c, s}); });
        }, 4);
    }
    {
        auto al = concat(bytes({0xE2, 0x80, 0xC0}), us(U"aiI\u0130\u0131\u00DFs.\u00E4"));
        StringSpace sp(al, 0, T ? 3 : 2);
        h.add("pairs", fmt("all ordered pairs of strings of up to %d of %zu symbols: every function of two strings", T ? 3 : 2, al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "every function of " + show(s) + " and each string"; });
            in_every_locale(c, [&]
            {
                for (uint64_t k = 0; k < sp.count(); ++k)
                    two_strings(c, s, sp.get(k));
            });
        }, 1);
    }
    {
        auto al = concat(bytes({'a', 0x80, 0xE2, 0xA0}), us(U"\u00E9\u0301\U0001F600\r\n"));
        StringSpace sp(al, 0, T ? 4 : 3);
        h.add("indexes", fmt("all strings of up to %d of 4 byte classes and 5 code points: every function of an index", T ? 4 : 3), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "every function of an index on " + show(s); });
            in_every_locale(c, [&] { indexed(c, s); });
        }, 1);
    }
    h.add("codepoints", "every function of a code point with every value up to 110FFF", 0x111000 / 256, [](Ctx& c, uint64_t blk)
    {
        c.sample([&] { return fmt("every function of U+%04X - U+%04X", unsigned(blk * 256), unsigned(blk * 256 + 255)); });
        in_every_locale(c, [&]
        {
            for (uint64_t k = 0; k < 256; ++k)
                codepoint(c, char32_t(blk * 256 + k));
        });
    });
    {
        vector<string> tok = {"\\x", "\\u", "\\U", "\\", "0", "4i", "D83D", "\\uDE00", "\\101", "\\7", "\\n", "\xE2", "\xA0", "\n"};
        StringSpace sp(tok, 1, T ? 5 : 4);
        h.add("escapes", fmt("all strings of up to %d of %zu pieces of escape sequences: the escape functions", T ? 5 : 4, tok.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "escape functions on " + show(s); });
            in_every_locale(c, [&]
            {
                In in{c, s};
                CALL(in, unescape(s));
                CALL(in, has_escaped_chars(s));
                CALL(in, find_first_escaped_char(s, 0));
                CALL(in, escape_json(s));
            });
        }, 16);
    }
    {
        vector<size_t> ks = {2, 3, 7, 8, 15, 16, 17, 33, 64, 65, 129, 257};
        vector<string> vs = {"a", "i", "I ", u(0xE9), u(0x20AC), u(0x1F600), "\x80", "\xA0", "e" + u(0x301), u(0x130), "\\n", "\"", "\r\n", u(0xDF)};
        h.add("pumped", fmt("v^k for %zu counts k, %zu v: every function", ks.size(), vs.size()), ks.size() * vs.size(), [=](Ctx& c, uint64_t i)
        {
            auto& v = vs[i % vs.size()];
            auto s = repeat(v, ks[i / vs.size()]);
            c.sample([&] { return "every function on " + show(s); });
            in_every_locale(c, [&]
            {
                one_string({c, s});
                two_strings(c, s, v);
                two_strings(c, v, s);
            });
        }, 1);
    }
}
