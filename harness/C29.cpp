// C29: no call's course or result depends on memory that nobody wrote.
// Runs under valgrind's memcheck, which ends the process as soon as a branch or an
// address depends on such memory; every byte of every result is used in a branch.
#define MC_MEMCHECK
#define MC_NO_AS_LIMIT
#include <cstdint>
static volatile uint64_t g_sink;
#define YS_SINK
#define YS_AFTER_CALL() do { if (g_sink == 0x9E3779B97F4A7C15ull) ++g_hits; } while (0)
static volatile unsigned g_hits;
#include "all_calls.hpp"

void mc::build(Harness& h)
{
    bool T = h.thorough;
    h.stall = 120;
    auto all = [](Ctx& c, const string& s)
    {
        Exact e(s);
        one_string({c, e.view()});
        use(e.view());
        YS_AFTER_CALL();
    };
    {
        StringSpace sp(byte_classes(), 0, T ? 3 : 2);
        h.add("bytes", fmt("all strings of up to %d of 16 byte classes: every function of one string", T ? 3 : 2), sp.count(), [=](Ctx& c, uint64_t i)
        {
            c.sample([&] { return "every function on " + show(sp.get(i)); });
            all(c, sp.get(i));
        }, 4);
    }
    {
        StringSpace sp(small_byte_classes(), 3, T ? 4 : 3);
        h.add("longer", fmt("all strings of 3 to %d of 7 byte classes: every function of one string", T ? 4 : 3), sp.count(), [=](Ctx& c, uint64_t i) { all(c, sp.get(i)); }, 4);
    }
    {
        auto al = us(U"aAs\u0301\u0308\u0323\u00C4\u1E69\u1F82\u00DF\u0131\u3042\u3099\U00011099\U000110BA\r\n "s);
        al.push_back("\xCC");
        StringSpace sp(al, 1, T ? 3 : 2);
        h.add("texts", fmt("all strings of up to %d of %zu code points and bytes that combine, change length with case, or end lines", T ? 3 : 2, al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            c.sample([&] { return "every function on " + show(sp.get(i)); });
            all(c, sp.get(i));
        }, 4);
    }
    {
        auto al = concat(bytes({'a', 0x80, 0xE2}), us(U"\u00E9\u0301\U0001F600\r\n"));
        StringSpace sp(al, 0, T ? 3 : 2);
        h.add("indexes", fmt("all strings of up to %d of 3 byte classes and 5 code points: every function of an index, with 15 indexes and all pairs of them", T ? 3 : 2), sp.count(), [=](Ctx& c, uint64_t i)
        {
            c.sample([&] { return "every function of an index on " + show(sp.get(i)); });
            Exact e(sp.get(i));
            indexed(c, e.view());
        }, 1);
    }
    {
        auto al = concat(bytes({0xE2, 0x80}), us(U"aA\u00DFs"));
        StringSpace sp(al, 0, T ? 3 : 2);
        h.add("pairs", fmt("all ordered pairs of strings of up to %d of %zu symbols: every function of two strings", T ? 3 : 2, al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            c.sample([&] { return "every function of " + show(sp.get(i)) + " and each string"; });
            Exact a(sp.get(i));
            for (uint64_t k = 0; k < sp.count(); ++k)
            {
                Exact b(sp.get(k));
                two_strings(c, a.view(), b.view());
            }
        }, 1);
    }
    {
        vector<string> tok = {"\\x", "\\u", "\\U", "\\", "0", "41", "D83D", "123456789", "\\101", "\\7", "\\n", "\xE2", "\x80", "\n"};
        StringSpace sp(tok, 1, T ? 4 : 3);
        h.add("escapes", fmt("all strings of up to %d of %zu pieces of escape sequences: the escape functions", T ? 4 : 3, tok.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            c.sample([&] { return "unescape functions on " + show(sp.get(i)); });
            auto str = sp.get(i);
            Exact e(str);
            In in{c, e.view()};
            auto s = in.s;
            c.state();
            Exact f(s);
            CALL(in, unescape(f.data.get(), f.size));
            CALL(in, unescape(str));
            CALL(in, has_escaped_chars(s));
            CALL(in, find_first_escaped_char(s, 0));
            CALL(in, escape_json(s));
            auto v = s;
            c.note("unescape_next");
            try
            {
                for (bool more = true; more;)
                {
                    bool b;
                    c.call();
                    auto r = unescape_next(v, &b);
                    use(b);
                    more = r.has_value();
                    if (r)
                        use(*r);
                    YS_AFTER_CALL();
                }
            }
            catch (const YstringException& ex)
            {
                use(string_view(ex.what()));
                YS_AFTER_CALL();
            }
            MC_OK(c, mc::inside(v, s), "unescape_next on %s", show(s).c_str());
        }, 16);
    }
    {
        auto v = std::make_shared<u32string>(reps());
        for (uint32_t k = 0; k < 32; ++k)
        {
            v->push_back(char32_t(1u << k));
            v->push_back(char32_t((2u << k) - 1));
        }
        for (uint32_t k = 0; k < 0x110000; k += T ? 31 : 257)
            v->push_back(k);
        v->append({0xD800, 0xDFFF, 0x110000, 0x110001});
        h.add("codepoints", fmt("every function of a code point with %zu values", v->size()), v->size(), [=](Ctx& c, uint64_t i)
        {
            c.sample([&] { return fmt("every function of U+%04X", unsigned((*v)[i])); });
            codepoint(c, (*v)[i]);
            if (i < reps().size())
                all(c, u((*v)[i]));
        }, 32);
    }
    {
        auto vs = std::make_shared<u32string>(U"\0azAZ\u0131\U0010FFFF"s);
        h.add("sets", fmt("sets with a range between any two of %zu values, in both orders", vs->size()), vs->size() * vs->size(), [=](Ctx& c, uint64_t i) { sets(c, (*vs)[i / vs->size()], (*vs)[i % vs->size()]); YS_AFTER_CALL(); }, 1);
    }
    {
        vector<size_t> ks = {2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257};
        if (T)
            ks.insert(ks.end(), {511, 513, 1023, 1025});
        vector<string> vs = {"a", u(0xE9), u(0x20AC), u(0x1F600), "\x80", "e" + u(0x301), u(0x1F82), "\\n", "\\uD83D\\uDE00", "\"", "\r\n", u(0xDF), "\\"};
        h.add("pumped", fmt("v^k w for %zu counts k up to %zu, %zu v, 2 w: every function of one string, and up to 257 of two", ks.size(), ks.back(), vs.size()), ks.size() * vs.size() * 2, [=](Ctx& c, uint64_t i)
        {
            auto& v = vs[i % vs.size()];
            string w = i / vs.size() % 2 ? "\xE2\x82" : "";
            size_t k = ks[i / vs.size() / 2];
            c.sample([&] { return "every function on " + show(v) + fmt(" * %zu", k); });
            Exact e(repeat(v, k) + w);
            one_string({c, e.view()});
            if (k > 257)
                return;
            Exact p(repeat(v, k / 2) + w), q(v);
            two_strings(c, e.view(), p.view());
            two_strings(c, e.view(), q.view());
        }, 1);
    }
}
