// C25: no memory errors, hangs or foreign exceptions. Built with the address
// and undefined behaviour sanitizers and checked containers; inputs are heap
// blocks of exactly their size.
#include "all_calls.hpp"

void mc::build(Harness& h)
{
    bool T = h.thorough;
    h.add("empty", "the empty string, also as a null view", 1, [](Ctx& c, uint64_t)
    {
        Exact e("");
        for (string_view s : {string_view(), string_view(e.data.get(), 0), string_view("")})
        {
            In in{c, s};
            one_string(in);
            indexed(c, s);
            for (string_view t : {string_view(), string_view("a")})
            {
                two_strings(c, s, t);
                two_strings(c, t, s);
            }
        }
        std::ostringstream os;
        os << Subrange() << Subrange(0, 0) << Subrange(SIZE_MAX, SIZE_MAX);
        use(os.str());
        use(to_string_view(u8"x\u00E9"));
        c.call();
        c.sample([] { return string("every function with the null view"); });
    });
    {
        StringSpace sp(byte_classes(), 1, T ? 4 : 3);
        h.add("bytes", fmt("all strings of up to %d of 16 byte classes: every function of one string", T ? 4 : 3), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "every function on " + show(s); });
            Exact e(s);
            one_string({c, e.view()});
        }, 32);
    }
    {
        StringSpace sp(small_byte_classes(), 4, T ? 6 : 5);
        h.add("longer", fmt("all strings of 4 to %d of 7 byte classes: every function of one string", T ? 6 : 5), sp.count(), [=](Ctx& c, uint64_t i)
        {
            Exact e(sp.get(i));
            one_string({c, e.view()});
        }, 32);
    }
    {
        StringSpace sp(byte_classes(), 0, 2), small(small_byte_classes(), 3, 3);
        auto all = std::make_shared<vector<string>>();
        for (uint64_t i = 0; i < sp.count(); ++i)
            all->push_back(sp.get(i));
        for (uint64_t i = 0; T && i < small.count(); ++i)
            all->push_back(small.get(i));
        h.add("pairs", fmt("all ordered pairs of %zu strings (up to 2 of 16 byte classes%s): every function of two strings", all->size(), T ? ", 3 of 7" : ""), all->size(), [=](Ctx& c, uint64_t i)
        {
            Exact a((*all)[i]);
            for (auto& t : *all)
            {
                Exact b(t);
                two_strings(c, a.view(), b.view());
            }
        }, 4);
    }
    {
        auto al = concat(small_byte_classes(), us(U"\u00E9\u0301\u20AC\U0001F600\r\n"));
        StringSpace sp(al, 1, T ? 4 : 3);
        h.add("indexes", fmt("all strings of up to %d of 7 byte classes and 6 code points: every function of an index, with 15 indexes and all pairs of them", T ? 4 : 3), sp.count(), [=](Ctx& c, uint64_t i)
        {
            Exact e(sp.get(i));
            indexed(c, e.view());
        }, 4);
    }
    {
        vector<string> tok = {"\\x", "\\u", "\\U", "\\", "\\\n", "\\\\", "0", "41", "D83D", "DE00", "FFFF", "g", "\\101", "\\7", "\\n", "\xE2", "\x80", u(0x20AC)};
        StringSpace sp(tok, 1, T ? 5 : 4);
        h.add("escapes", fmt("all strings of up to %d of %zu pieces of escape sequences and broken UTF-8: every function of one string up to 3, the escape functions beyond", T ? 5 : 4, tok.size()), sp.count(),
              [=](Ctx& c, uint64_t i)
        {
            auto str = sp.get(i);
            Exact e(str);
            In in{c, e.view()};
            auto s = in.s;
            c.state();
            Exact f(s);
            CALL(in, unescape(f.data.get(), f.size));
            CALL(in, unescape(str));
            CALL(in, has_escaped_chars(s));
            for (size_t o = 0; o <= s.size(); ++o)
                CALL(in, find_first_escaped_char(s, o));
            for (size_t o = 0; o < s.size(); ++o)
            {
                auto v = s.substr(o);
                c.note("unescape_next");
                try
                {
                    while (unescape_next(v))
                        c.call();
                }
                catch (const YstringException&)
                {
                }
                MC_OK(c, mc::inside(v, s), "unescape_next on %s", show(s).c_str());
            }
            if (i < 18 + 18 * 18 + 18 * 18 * 18)
                one_string(in);
        }, 32);
    }
    {
        auto al = us(U"aAs\u0301\u0304\u0308\u0323\u00C4\u1E69\u1F82\u00DF\u0131\u212A\u3042\u3099\U00011099\U000110BA\r\n\u2028 "s);
        al.push_back("\xCC");
        al.push_back("\x81");
        StringSpace sp(al, 1, 3);
        h.add("texts", fmt("all strings of up to 3 of %zu code points and bytes that combine, change length with case, or end lines", al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            Exact e(sp.get(i));
            one_string({c, e.view()});
        }, 32);
    }
    h.add("codepoints", T ? "every function of a code point with every value 0..21FFFF" : "every function of a code point with every value 0..FFF and every 61st up to 3FFFFF", T ? 0x2200 : 0x4000 / 61, [T](Ctx& c, uint64_t blk)
    {
        for (uint64_t k = 0; k < 256; ++k)
        {
            auto v = blk * 256 + k;
            if (T)
                codepoint(c, char32_t(v));
            else
            {
                codepoint(c, char32_t(v * 61 % 0x400000));
                if (v < 0x1000)
                    codepoint(c, char32_t(v));
            }
        }
    });
    h.add("large-codepoints", "every function of a code point with 2^a +- 2^b +- 0..2", 33 * 33, [](Ctx& c, uint64_t i)
    {
        for (int d = -2; d <= 2; ++d)
        {
            codepoint(c, char32_t((1ull << (i / 33)) + (1ull << (i % 33)) + d));
            codepoint(c, char32_t((1ull << (i / 33)) - (1ull << (i % 33)) + d));
        }
    });
    {
        auto vs = std::make_shared<u32string>(U"\0azAZ\u007F\u0131\u017F\uFFFF\U0010FFFF"s);
        for (uint32_t v : {0x110000u, 0x1FFFFFu, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFEu, 0xFFFFFFFFu})
            vs->push_back(char32_t(v));
        h.add("sets", fmt("sets with a range between any two of %zu values, in both orders", vs->size()), vs->size() * vs->size(), [=](Ctx& c, uint64_t i) { sets(c, (*vs)[i / vs->size()], (*vs)[i % vs->size()]); }, 2);
    }
    {
        vector<size_t> ks;
        for (size_t k = 1; k <= (T ? 40u : 18u); ++k)
            ks.push_back(k);
        for (size_t k : {31, 33, 64, 65, 128, 129, 256, 257})
            ks.push_back(k);
        if (T)
            ks.insert(ks.end(), {511, 513, 1023, 1024, 1025, 4095, 4097});
        vector<string> vs = {"a", u(0xE9), u(0x20AC), u(0x1F600), "\x80", "\xC3", "\xF0\x9F", "e" + u(0x301), u(0x1F82), "\\n", "\\uD83D", "\\uD83D\\uDE00", "\"", "\r\n", u(0xDF), u(0x131), "\\", "\\x41", "\\0", " "};
        vector<string> ws = {"", "\xE2\x82", "\\", "a"};
        h.add("pumped", fmt("v^k w for %zu counts k, %zu v, %zu w: every function", ks.size(), vs.size(), ws.size()), ks.size() * vs.size() * ws.size(), [=](Ctx& c, uint64_t i)
        {
            auto& v = vs[i % vs.size()];
            auto& w = ws[i / vs.size() % ws.size()];
            size_t k = ks[i / vs.size() / ws.size()];
            Exact e(repeat(v, k) + w);
            one_string({c, e.view()});
            if (k < (T ? 40 : 8))
                indexed(c, e.view());
            Exact p(repeat(v, k / 2) + w), q(v);
            two_strings(c, e.view(), p.view());
            two_strings(c, e.view(), q.view());
            two_strings(c, q.view(), e.view());
        }, 1);
    }
    {
        // Functions that call themselves once per code point, part or character run out of stack.
        vector<string> vs = {"a", u(0xE9), u(0x1F600), "\x80", "\xF0\x9F", u(0x301), "\\n", "\\\n", "\\uD83D\\uDE00", "\"", "\r\n", " ", "e" + u(0x301), u(0x1E69), "Aa", "a,"};
        size_t k = T ? 262144 : 65536;
        h.add("deep", fmt("v^%zu for %zu v: every function of one string, in 2 MB of stack", k, vs.size()), vs.size(), [=](Ctx& c, uint64_t i)
        {
            rlimit rl;
            getrlimit(RLIMIT_STACK, &rl);
            rl.rlim_cur = 2 << 20;
            setrlimit(RLIMIT_STACK, &rl);
            c.sample([&] { return fmt("every function on %zu times ", k) + show(vs[i]); });
            Exact e(repeat(vs[i], k));
            one_string({c, e.view()});
            two_strings(c, e.view(), vs[i]);
            for (auto p : {ptrdiff_t(k - 1), -ptrdiff_t(k - 1), PTRDIFF_MAX})
            {
                In in{c, e.view()};
                CALL(in, get_char_pos(in.s, p));
                CALL(in, get_codepoint_pos(in.s, p));
                CALL(in, get_char_substring(in.s, p));
                CALL(in, insert_codepoints(in.s, p, "x"));
                CALL(in, insert_chars(in.s, p, "x"));
            }
        }, 1);
    }
}
