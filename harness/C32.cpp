// C32: results depend on the bytes of the arguments, not on where they are,
// what surrounds them, or what storage they share.
#include "compared.hpp"

// The string at an address with the given remainder modulo 64, between other bytes.
struct Placed
{
    alignas(64) char small[64 * 6];
    vector<char> big;
    string_view view;

    Placed(string_view s, size_t align, string_view before, string_view after)
    {
        char* p = small;
        if (s.size() + 64 * 4 > sizeof small)
        {
            big.resize(s.size() + 64 * 6);
            p = big.data();
        }
        auto at = (uintptr_t(p) + 64 + 63) / 64 * 64 + align;
        auto q = reinterpret_cast<char*>(at);
        for (int k = 1; k <= 40; ++k)
            q[-k] = before[before.size() - 1 - size_t(k - 1) % before.size()];
        if (!s.empty())
            memcpy(q, s.data(), s.size());
        for (int k = 0; k < 40; ++k)
            q[s.size() + size_t(k)] = after[size_t(k) % after.size()];
        view = {q, s.size()};
    }
};

struct Frame
{
    string before, after;
};

static vector<Frame> frames()
{
    return {{"\0"s, "\0"s}, {"a", "a"}, {"\xE2\x82", "\x80"}, {"\xC3", "\xBF"}, {"\xF0\x9F\x98", "\xCC\x81"}, {"\\", "n"}, {"\r", "\n"}, {"\\u00", "41"}, {"\xFF", "\xFF"}, {"\xCC\x81", "\x82\xAC"}, {"\xE3\x81\x8B", "\xE3\x82\x99"}, {" ", " "}, {"\\uD83D", "\\uDE00"}, {"A", "\xF0"}, {"\\0", "7"}, {"\\x", "F"}};
}

static void everywhere(Ctx& c, const string& s, size_t stride)
{
    static const auto fs = frames();
    {
        Exact e(s);
        begin_setting(true, "");
        one_string({c, e.view()});
        end_setting(c);
    }
    for (size_t f = 0; f < fs.size(); ++f)
    {
        for (size_t align = f % stride; align < 64; align += stride)
        {
            Placed p(s, align, fs[f].before, fs[f].after);
            begin_setting(false, fmt("between %s and %s, %zu bytes behind a multiple of 64", show(fs[f].before).c_str(), show(fs[f].after).c_str(), align));
            one_string({c, p.view});
            end_setting(c);
        }
    }
}

static void two_everywhere(Ctx& c, const string& s, const string& t, size_t stride)
{
    static const auto fs = frames();
    {
        Exact a(s), b(t);
        begin_setting(true, "");
        two_strings(c, a.view(), b.view());
        end_setting(c);
    }
    for (size_t f = 0; f < fs.size(); ++f)
    {
        auto& g = fs[(f + 3) % fs.size()];
        for (size_t align = f % stride; align < 64; align += stride)
        {
            size_t other = align * 7 % 64;
            Placed p(s, align, fs[f].before, fs[f].after), q(t, other, g.before, g.after);
            begin_setting(false, fmt("between %s and %s, %zu bytes behind a multiple of 64, with the second argument %s between %s and %s at %zu", show(fs[f].before).c_str(), show(fs[f].after).c_str(), align,
                                     show(t).c_str(), show(g.before).c_str(), show(g.after).c_str(), other));
            two_strings(c, p.view, q.view);
            end_setting(c);
        }
    }
}

// Every function of a string and a list, with the list inside a longer one.
static void listed(In in, std::u32string_view l)
{
    auto s = in.s;
    CALL(in, find_first_of(s, l));
    CALL(in, find_last_of(s, l));
    CALL(in, ci::find_first_of(s, l));
    CALL(in, ci::find_last_of(s, l));
    CALL(in, split(s, l));
    CALL(in, ci::split(s, l));
    CALL(in, trim(s, l));
    CALL(in, trim_start(s, l));
    CALL(in, trim_end(s, l));
    CALL(in, from_utf32(l));
    CALL(in, ystring::contains(l, U'a'));
    CALL(in, case_insensitive_contains(l, U'a'));
    CALL(in, ([&] { CodepointSet t; t.add_codepoints(l); return find_first_of(s, t); }()));
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    {
        StringSpace sp(byte_classes(), 0, T ? 3 : 2);
        h.add("bytes", fmt("all strings of up to %d of 16 byte classes between 16 pairs of other bytes, at %s: every function of one string", T ? 3 : 2, T ? "16 of 64 offsets each" : "every 64-byte offset"), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "every function on " + show(s) + " in every place"; });
            everywhere(c, s, T && s.size() > 2 ? 4 : 1);
        }, 2);
    }
    {
        auto al = us(U"aAs\u0301\u0308\u00C4\u00DF\u0131\u304B\u3099\r\n \\"s);
        al.push_back("\xCC");
        StringSpace sp(al, 1, T ? 3 : 2);
        h.add("texts", fmt("all strings of up to %d of %zu code points and bytes between 16 pairs of other bytes, at every eighth offset", T ? 3 : 2, al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "every function on " + show(s) + " in every place"; });
            everywhere(c, s, 8);
        }, 2);
    }
    h.add("codepoints", "every representative code point, alone and between letters, between 16 pairs of other bytes, at every eighth offset", reps().size(), [](Ctx& c, uint64_t i)
    {
        auto s = u(reps()[i]);
        c.sample([&] { return "every function on " + show(s) + " in every place"; });
        everywhere(c, s, 8);
        everywhere(c, "a" + s + "b", 8);
    }, 2);
    {
        vector<string> tok = {"\\x", "\\u", "\\", "0", "41", "D83D", "\\uDE00", "\\1", "\\n", "\xE2", "\n"};
        StringSpace sp(tok, 1, T ? 4 : 3);
        h.add("escapes", fmt("all strings of up to %d of %zu pieces of escape sequences between 16 pairs of other bytes: the escape functions", T ? 4 : 3, tok.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "escape functions on " + show(s) + " in every place"; });
            auto run = [&](string_view v)
            {
                In in{c, v};
                CALL(in, unescape(string(v)));
                CALL(in, has_escaped_chars(v));
                CALL(in, find_first_escaped_char(v));
                CALL(in, find_first_escapable_char(v));
                CALL(in, escape_json(v));
                CALL(in, ([&]
                {
                    string out;
                    auto w = v;
                    bool b = false;
                    while (auto r = unescape_next(w, &b))
                        out += fmt("%x%c%zu,", unsigned(*r), b ? 'e' : '-', w.size());
                    return out;
                }()));
            };
            static const auto fs = frames();
            for (size_t f = 0; f <= fs.size(); ++f)
            {
                Exact e(s);
                auto& g = fs[f ? f - 1 : 0];
                Placed p(s, f * 5 % 64, g.before, g.after);
                begin_setting(f == 0, fmt("between %s and %s", show(g.before).c_str(), show(g.after).c_str()));
                run(f ? p.view : e.view());
                // In place, which changes the bytes.
                auto w = f ? p.view : e.view();
                In in{c, s};
                CALL(in, ([&]
                {
                    auto q = const_cast<char*>(w.data());
                    return string(q, unescape(q, w.size()));
                }()));
                end_setting(c);
            }
        }, 16);
    }
    {
        vector<string> vs = {"a", "a ", u(0xE9), u(0x20AC), u(0x1F600), "\x80", "e" + u(0x301), u(0xDF), "\"", "\r\n", "\\n"};
        vector<string> ws = {"", "\xE2", "b", u(0xC9)};
        vector<size_t> ks = {3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129};
        if (T)
            ks.insert(ks.end(), {255, 256, 257, 513});
        h.add("pumped", fmt("v^k w for %zu counts k up to %zu, %zu v, %zu w, between 16 pairs of other bytes, at every %s offset: every function of one and two strings", ks.size(), ks.back(), vs.size(), ws.size(), "eighth"), ks.size() * vs.size() * ws.size(), [=](Ctx& c, uint64_t i)
        {
            auto& v = vs[i % vs.size()];
            auto& w = ws[i / vs.size() % ws.size()];
            size_t k = ks[i / vs.size() / ws.size()];
            auto s = repeat(v, k) + w;
            c.sample([&] { return "every function on " + show(s) + " in every place"; });
            size_t stride = k > 200 ? 16 : 8;
            everywhere(c, s, stride);
            two_everywhere(c, s, w.empty() ? v : w, stride);
            two_everywhere(c, s, repeat(v, k / 2) + w, stride);
            two_everywhere(c, s, s, stride);
        }, 1);
    }
    {
        auto xs = few_block_symbols(true);
        vector<string> vs = {"a", u(0xE9), "\x80", " ", u(0xDF)};
        size_t K = T ? 34 : 18;
        h.add("blocks", fmt("one of %zu symbols after 0 to %zu and before 0, 9 and 17 of each of %zu others, at all offsets modulo 16 between one of 16 pairs of other bytes: every function of one string", xs.size(), K - 1, vs.size()),
              xs.size() * vs.size() * K, [=](Ctx& c, uint64_t i)
        {
            auto& x = xs[i % xs.size()];
            auto& v = vs[i / xs.size() % vs.size()];
            size_t k = i / xs.size() / vs.size();
            static const auto fs = frames();
            c.sample([&] { return "every function on " + show(x) + " among " + show(v) + " in every place"; });
            for (size_t q : {0, 9, 17})
            {
                auto s = repeat(v, k) + x + repeat(v, q);
                for (size_t align = 0; align <= 16; ++align)
                {
                    Exact e(s);
                    auto& g = fs[(align + i) % fs.size()];
                    Placed p(s, align ? align - 1 : 0, g.before, g.after);
                    begin_setting(align == 0, fmt("between %s and %s, %zu bytes behind a multiple of 64", show(g.before).c_str(), show(g.after).c_str(), align - 1));
                    one_string({c, align ? p.view : e.view()});
                    end_setting(c);
                }
            }
        }, 4);
    }
    {
        auto al = concat(bytes({0xE2, 0x80}), us(U"aA\u00DF\u0301"));
        StringSpace sp(al, 0, T ? 3 : 2);
        h.add("pairs", fmt("all ordered pairs of strings of up to %d of %zu symbols, between 16 pairs of other bytes", T ? 3 : 2, al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "every function of " + show(s) + " and each string, in every place"; });
            for (uint64_t k = 0; k < sp.count(); ++k)
                two_everywhere(c, s, sp.get(k), 32);
        }, 1);
    }
    {
        auto al = concat(bytes({'a', 0x80, 0xE2}), us(U"\u00E9\u0301\r\n"));
        StringSpace sp(al, 0, T ? 4 : 3);
        h.add("indexes", fmt("all strings of up to %d of 3 byte classes and 4 code points between 16 pairs of other bytes: every function of an index", T ? 4 : 3), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "every function of an index on " + show(s) + " in every place"; });
            static const auto fs = frames();
            for (size_t f = 0; f <= fs.size(); ++f)
            {
                Exact e(s);
                auto& g = fs[f ? f - 1 : 0];
                Placed p(s, f * 5 % 64, g.before, g.after);
                begin_setting(f == 0, fmt("between %s and %s", show(g.before).c_str(), show(g.after).c_str()));
                indexed(c, f ? p.view : e.view());
                end_setting(c);
            }
        }, 1);
    }
    {
        auto al = concat(bytes({0x80}), us(U"aA\u00E9\u0301 "));
        StringSpace sp(al, 1, T ? 5 : 4);
        h.add("shared", fmt("all strings of up to %d of %zu symbols with each of their substrings as second argument: in the same storage and apart", T ? 5 : 4, al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "every function of two strings on " + show(s) + " and its substrings"; });
            Exact e(s);
            for (size_t b = 0; b <= s.size(); ++b)
            {
                for (size_t n = b == 0; n <= s.size() - b; n += 1 + (n == 0 && b))
                {
                    for (int k = 0; k < 3; ++k)
                    {
                        begin_setting(k == 0, fmt("with the substring from %zu to %zu %s", b, b + n, k == 1 ? "in the same storage" : "of the same storage as text"));
                        Exact p(string_view(s).substr(b, n));
                        auto t = e.view().substr(b, n);
                        two_strings(c, e.view(), k == 1 ? t : p.view());
                        // and the other way round
                        two_strings(c, k == 2 ? t : p.view(), k == 2 ? e.view() : string_view(s));
                        end_setting(c);
                    }
                }
            }
        }, 2);
    }
    {
        auto al = us(U"aA\u00E9\U0001F600\uFFFF"s);
        StringSpace sp(al, 0, T ? 4 : 3);
        auto lists = std::make_shared<vector<u32string>>();
        for (auto x : U"aA\u00C9\u01C5\U0001F600\uFFFF\0"s)
        {
            lists->push_back({x});
            for (auto y : U"a\u00E9\u212A\U0010FFFF"s)
                lists->push_back({x, y});
        }
        lists->push_back(U"");
        h.add("lists", fmt("all strings of up to %d of %zu code points with %zu lists of code points, inside longer lists that contain the text's, at 4 alignments", T ? 4 : 3, al.size(), lists->size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "functions of lists on " + show(s); });
            for (auto& l : *lists)
            {
                u32string exact(l);
                exact.shrink_to_fit();
                begin_setting(true, "");
                listed({c, s}, l);
                end_setting(c);
                for (auto bait : {U'a', U'\u00E9', U'\U0001F600', U'\0'})
                {
                    for (size_t k = 1; k <= 4; ++k)
                    {
                        auto longer = u32string(k, bait) + l + u32string(5, bait);
                        begin_setting(false, fmt("with the list %s between U+%04X", show(l).c_str(), unsigned(bait)));
                        listed({c, s}, std::u32string_view(longer).substr(k, l.size()));
                        end_setting(c);
                    }
                }
            }
        }, 2);
    }
}
