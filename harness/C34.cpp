// C34: results do not depend on the compiler, its options or the signedness of char.
// YS_CONFIGS names the shared objects, one per configuration.
#include <dlfcn.h>
#include <sstream>
#include "common.hpp"

using namespace mc;

using Run1 = size_t (*)(int, const char*, size_t, const char*, size_t, uint64_t, uint64_t, uint64_t*, const char**, size_t);

struct Config
{
    string name;
    Run1 run;
};

static const vector<Config>& configs()
{
    static const auto v = []
    {
        vector<Config> r;
        std::istringstream in(getenv("YS_CONFIGS") ? getenv("YS_CONFIGS") : "");
        string line;
        while (std::getline(in, line))
        {
            auto k = line.find('\t');
            if (k == string::npos)
                continue;
            auto h = dlopen(line.substr(k + 1).c_str(), RTLD_NOW | RTLD_LOCAL);
            auto f = h ? dlsym(h, "ys_configured") : nullptr;
            if (!f)
            {
                fprintf(stderr, "%s: %s\n", line.c_str(), dlerror());
                _exit(3);
            }
            r.push_back({line.substr(0, k), Run1(f)});
        }
        return r;
    }();
    return v;
}

static void same(Ctx& c, int kind, string_view s, string_view t = {}, uint64_t from = 0, uint64_t to = 0)
{
    static vector<uint64_t> first(1 << 16), out(1 << 16);
    static vector<const char*> first_names(1 << 16), names(1 << 16);
    size_t n = 0;
    auto subject = [&] { return to ? fmt("U+%04X - U+%04X", unsigned(from), unsigned(to - 1)) : t.empty() ? mc::show(s) : mc::show(s) + " and " + mc::show(t); };
    for (auto& k : configs())
    {
        bool base = &k == &configs()[0];
        c.note(k.name.c_str());
        auto got = k.run(kind, s.data(), s.size(), t.data(), t.size(), from, to, (base ? first : out).data(), (base ? first_names : names).data(), first.size());
        c.state();
        MC_OK(c, got != SIZE_MAX, "%s: %s", k.name.c_str(), (base ? first_names : names)[0]);
        c.transitions += got;
        c.call();
        if (base)
        {
            n = got;
            uint64_t h = 14695981039346656037ull;
            for (size_t i = 0; i < std::min(n, first.size()); ++i)
                h = (h ^ first[i]) * 1099511628211ull;
            c.outcome(h);
            continue;
        }
        for (size_t i = 0; i < std::min({n, got, first.size()}); ++i)
            MC_OK(c, first[i] == out[i], "%s on %s: another result with %s than with %s", names[i], subject().c_str(), k.name.c_str(), configs()[0].name.c_str());
        MC_OK(c, n == got, "%s: another number of calls with %s than with %s", subject().c_str(), k.name.c_str(), configs()[0].name.c_str());
    }
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    if (configs().size() < 2)
    {
        fprintf(stderr, "no configurations\n");
        _exit(3);
    }
    string list;
    for (auto& k : configs())
        list += (list.empty() ? "" : "; ") + k.name;
    h.add("null", fmt("the null view, in %zu configurations: %s", configs().size(), list.c_str()), 1, [](Ctx& c, uint64_t)
    {
        c.sample([] { return string("every function with the null view"); });
        for (int kind : {0, 1, 2, 4, 5})
            same(c, kind, {});
    });
    {
        StringSpace sp(byte_classes(), 0, T ? 4 : 3);
        h.add("bytes", fmt("all strings of up to %d of 16 byte classes: every function of one string, cursors everywhere", T ? 4 : 3), sp.count(), [=](Ctx& c, uint64_t i)
        {
            Exact e(sp.get(i));
            c.sample([&] { return "every function on " + mc::show(e.view()); });
            same(c, 0, e.view());
            same(c, 5, e.view());
        });
    }
    h.add("all-bytes", T ? "all strings of one and two bytes: every function of one string, cursors everywhere" : "all strings of one byte, and of one and then one of 64 bytes: every function of one string, cursors everywhere", 256, [T](Ctx& c, uint64_t i)
    {
        string s(1, char(i));
        c.sample([&] { return "every function on " + mc::show(s); });
        same(c, 0, s);
        same(c, 5, s);
        same(c, 2, s);
        for (int b = 0; b < 256; ++b)
        {
            if (!T && b % 8 && b % 8 != 7)
                continue;
            same(c, 0, s + char(b));
            same(c, 5, s + char(b));
        }
    }, 1);
    h.add("four-bytes", "all four-byte strings of a lead byte and three of {80, 8F, 90, 9F, A0, BF, 7F, C0}: cursors everywhere", 256, [](Ctx& c, uint64_t i)
    {
        c.sample([&] { return fmt("%02X and three bytes", unsigned(i)); });
        const char t[] = "\x80\x8F\x90\x9F\xA0\xBF\x7F\xC0";
        for (int k = 0; k < 512; ++k)
            same(c, 5, string(1, char(i)) + t[k / 64] + t[k / 8 % 8] + t[k % 8]);
    }, 1);
    {
        auto al = us(U"aAs\u0301\u0304\u0308\u0323\u00C4\u1E69\u1F82\u00DF\u0131\u212A\u3042\u3099\U00011099\U000110BA\r\n\u2028 "s);
        al.push_back("\xCC");
        StringSpace sp(al, 1, 3);
        h.add("texts", fmt("all strings of up to 3 of %zu code points and bytes: every function of one string", al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            Exact e(sp.get(i));
            c.sample([&] { return "every function on " + mc::show(e.view()); });
            same(c, 0, e.view());
        });
    }
    {
        auto al = concat(bytes({0xE2, 0x80}), us(U"aA\u00DF\u00E9s"));
        StringSpace sp(al, 0, T ? 3 : 2);
        h.add("pairs", fmt("all ordered pairs of strings of up to %d of %zu symbols: every function of two strings", T ? 3 : 2, al.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            Exact e(sp.get(i));
            c.sample([&] { return "every function of " + mc::show(e.view()) + " and each string"; });
            for (uint64_t k = 0; k < sp.count(); ++k)
            {
                Exact t(sp.get(k));
                same(c, 1, e.view(), t.view());
            }
        }, 1);
    }
    {
        auto al = concat(bytes({'a', 0x80, 0xE2}), us(U"\u00E9\u0301\U0001F600\r\n"));
        StringSpace sp(al, 0, T ? 4 : 3);
        h.add("indexes", fmt("all strings of up to %d of 3 byte classes and 5 code points: every function of an index", T ? 4 : 3), sp.count(), [=](Ctx& c, uint64_t i)
        {
            Exact e(sp.get(i));
            c.sample([&] { return "every function of an index on " + mc::show(e.view()); });
            same(c, 2, e.view());
        }, 1);
    }
    h.add("codepoints", "every function of a code point with every value up to 110FFF", 0x111000 / 256, [](Ctx& c, uint64_t blk)
    {
        c.sample([&] { return fmt("every function of U+%04X - U+%04X", unsigned(blk * 256), unsigned(blk * 256 + 255)); });
        same(c, 3, {}, {}, blk * 256, blk * 256 + 256);
    });
    h.add("large-codepoints", "every function of a code point with 16 values around 2^21 ... 2^32", 12, [](Ctx& c, uint64_t i)
    {
        c.sample([&] { return fmt("values around 2^%u", unsigned(i + 21)); });
        uint64_t v = uint64_t(1) << (i + 21);
        same(c, 3, {}, {}, v - 8, v + 8);
    }, 1);
    {
        vector<string> tok = {"\\x", "\\u", "\\U", "\\", "\\\n", "0", "41", "D83D", "DE00", "FFFF", "\\101", "\\7", "\\377", "\\n", "\xE2", "\x80", "\xFF", u(0x20AC)};
        StringSpace sp(tok, 1, T ? 4 : 3);
        h.add("escapes", fmt("all strings of up to %d of %zu pieces of escape sequences and broken UTF-8: the escape functions", T ? 4 : 3, tok.size()), sp.count(), [=](Ctx& c, uint64_t i)
        {
            Exact e(sp.get(i));
            c.sample([&] { return "the escape functions on " + mc::show(e.view()); });
            same(c, 4, e.view());
        });
    }
    {
        vector<size_t> ks = {3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 129, 257};
        if (T)
            ks.insert(ks.end(), {511, 513, 1023, 1024, 1025, 4097});
        vector<string> vs = {"a", u(0xE9), u(0x20AC), u(0x1F600), "\x80", "\xC3", "\xFF", "e" + u(0x301), u(0x1F82), "\\n", "\"", "\r\n", u(0xDF), u(0x131), " "};
        vector<string> ws = {"", "\xE2\x82", "a"};
        h.add("pumped", fmt("v^k w for %zu counts k up to %zu, %zu v, %zu w: every function of one and of two strings", ks.size(), ks.back(), vs.size(), ws.size()), ks.size() * vs.size() * ws.size(), [=](Ctx& c, uint64_t i)
        {
            auto& v = vs[i % vs.size()];
            auto& w = ws[i / vs.size() % ws.size()];
            size_t k = ks[i / vs.size() / ws.size()];
            Exact e(repeat(v, k) + w), p(repeat(v, k / 2) + w), q(v);
            c.sample([&] { return "every function on " + mc::show(e.view()); });
            same(c, 0, e.view());
            same(c, 1, e.view(), p.view());
            same(c, 1, e.view(), q.view());
            same(c, 1, q.view(), e.view());
        }, 1);
    }
}
