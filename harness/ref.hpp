// Reference models. Deliberately plain: strings are cut into segments, code
// points are looked up in arrays filled from the Unicode data file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <string>
#include <string_view>
#include <vector>

namespace ref
{
    constexpr char32_t INVALID = 0xFFFFFFFFu;
    constexpr char32_t MAXCP = 0x10FFFF;

    struct Seg
    {
        size_t b, e;
        bool ok;
        char32_t cp;
    };

    inline bool is_cont(unsigned char c) { return c >= 0x80 && c <= 0xBF; }

    // Number of continuation bytes a lead byte calls for, -1 if it is no lead.
    inline int need(unsigned char c)
    {
        if (c <= 0x7F)
            return 0;
        if (c >= 0xC0 && c <= 0xDF)
            return 1;
        if (c >= 0xE0 && c <= 0xEF)
            return 2;
        if (c >= 0xF0 && c <= 0xF7)
            return 3;
        return -1;
    }

    inline std::vector<Seg> segment(std::string_view s)
    {
        std::vector<Seg> r;
        size_t i = 0;
        while (i < s.size())
        {
            unsigned char c = (unsigned char)s[i];
            int n = need(c);
            size_t j = i + 1;
            if (n < 0)
            {
                while (j < s.size() && is_cont((unsigned char)s[j]))
                    ++j;
                r.push_back({i, j, false, INVALID});
            }
            else
            {
                static const unsigned char mask[4] = {0x7F, 0x1F, 0x0F, 0x07};
                char32_t cp = c & mask[n];
                int k = 0;
                while (k < n && j < s.size() && is_cont((unsigned char)s[j]))
                {
                    cp = cp * 64 + ((unsigned char)s[j] - 0x80);
                    ++j;
                    ++k;
                }
                bool ok = k == n;
                r.push_back({i, j, ok, ok ? cp : INVALID});
            }
            i = j;
        }
        return r;
    }

    inline bool valid(std::string_view s)
    {
        for (auto& g : segment(s))
        {
            if (!g.ok)
                return false;
        }
        return true;
    }

    inline std::u32string dec(std::string_view s)
    {
        std::u32string r;
        for (auto& g : segment(s))
            r.push_back(g.cp);
        return r;
    }

    // Shortest form; also for the values above 10FFFF that four bytes can hold.
    inline void enc_to(std::string& r, char32_t c)
    {
        if (c < 0x80)
            r += char(c);
        else if (c < 0x800)
        {
            r += char(0xC0 + c / 64);
            r += char(0x80 + c % 64);
        }
        else if (c < 0x10000)
        {
            r += char(0xE0 + c / 4096);
            r += char(0x80 + c / 64 % 64);
            r += char(0x80 + c % 64);
        }
        else
        {
            r += char(0xF0 + c / 262144);
            r += char(0x80 + c / 4096 % 64);
            r += char(0x80 + c / 64 % 64);
            r += char(0x80 + c % 64);
        }
    }

    inline std::string enc(char32_t c)
    {
        std::string r;
        enc_to(r, c);
        return r;
    }

    inline std::string enc(std::u32string_view s)
    {
        std::string r;
        for (auto c : s)
            enc_to(r, c);
        return r;
    }

    enum Gc : uint8_t
    {
        Lu, Ll, Lt, Lm, Lo, Mn, Mc, Me, Nd, Nl, No, Pc, Pd, Ps, Pe, Pi, Pf, Po,
        Sm, Sc, Sk, So, Zs, Zl, Zp, Cc, Cf, Cs, Co, Cn
    };

    struct Unicode
    {
        std::vector<uint8_t> gc;
        std::vector<char32_t> up, lo, ti;
        std::map<char32_t, std::pair<char32_t, char32_t>> pair;
        std::map<std::pair<char32_t, char32_t>, char32_t> unpair;

        Unicode()
        {
            const char* path = getenv("YS_UNICODE");
            std::ifstream in(path ? path : "UnicodeData.txt");
            if (!in)
            {
                fprintf(stderr, "cannot read Unicode data\n");
                _Exit(3);
            }
            gc.assign(MAXCP + 1, Cn);
            up.resize(MAXCP + 1);
            lo.resize(MAXCP + 1);
            ti.resize(MAXCP + 1);
            for (char32_t c = 0; c <= MAXCP; ++c)
                up[c] = lo[c] = ti[c] = c;
            static const char* names = "LuLlLtLmLoMnMcMeNdNlNoPcPdPsPePiPfPoSmScSkSoZsZlZpCcCfCsCoCn";
            std::string line;
            char32_t first = 0;
            size_t lines = 0;
            while (std::getline(in, line))
            {
                if (!line.empty() && line.back() == '\r')
                    line.pop_back();
                if (line.empty())
                    continue;
                ++lines;
                std::vector<std::string> p;
                size_t b = 0;
                while (true)
                {
                    size_t e = line.find(';', b);
                    p.push_back(line.substr(b, e == std::string::npos ? e : e - b));
                    if (e == std::string::npos)
                        break;
                    b = e + 1;
                }
                auto hex = [](const std::string& s) { return char32_t(std::stoul(s, nullptr, 16)); };
                char32_t c = hex(p.at(0));
                uint8_t cls = Cn;
                for (int i = 0; i < 30; ++i)
                {
                    if (p.at(2) == std::string(names + 2 * i, 2))
                        cls = uint8_t(i);
                }
                auto ends = [](const std::string& s, const char* t)
                {
                    size_t n = strlen(t);
                    return s.size() >= n && s.compare(s.size() - n, n, t) == 0;
                };
                if (ends(p[1], ", First>"))
                    first = c;
                if (ends(p[1], ", Last>"))
                {
                    for (char32_t d = first; d <= c; ++d)
                        gc[d] = cls;
                }
                gc[c] = cls;
                if (!p.at(12).empty())
                    up[c] = hex(p[12]);
                if (!p.at(13).empty())
                    lo[c] = hex(p[13]);
                if (!p.at(14).empty())
                    ti[c] = hex(p[14]);
                auto& d = p.at(5);
                size_t sp;
                if (!d.empty() && d[0] != '<' && (sp = d.find(' ')) != std::string::npos
                    && d.find(' ', sp + 1) == std::string::npos)
                {
                    std::pair<char32_t, char32_t> v{hex(d.substr(0, sp)), hex(d.substr(sp + 1))};
                    pair[c] = v;
                    unpair[v] = c;
                }
            }
            if (lines < 30000)
            {
                fprintf(stderr, "Unicode data incomplete\n");
                _Exit(3);
            }
        }
    };

    inline const Unicode& uni()
    {
        static const Unicode u;
        return u;
    }

    inline Gc gc(char32_t c) { return c > MAXCP ? Cn : Gc(uni().gc[c]); }
    inline char32_t upper(char32_t c) { return c > MAXCP ? c : uni().up[c]; }
    inline char32_t lower(char32_t c) { return c > MAXCP ? c : uni().lo[c]; }
    inline char32_t title(char32_t c) { return c > MAXCP ? c : uni().ti[c]; }
    inline bool is_mark(char32_t c) { auto g = gc(c); return g == Mn || g == Mc || g == Me; }
    inline bool is_letter(char32_t c) { return gc(c) <= Lo; }

    inline void decompose_to(char32_t c, std::u32string& r)
    {
        auto& m = uni().pair;
        auto it = m.find(c);
        if (it == m.end())
        {
            r.push_back(c);
            return;
        }
        decompose_to(it->second.first, r);
        decompose_to(it->second.second, r);
    }

    inline std::u32string decompose(std::u32string_view s)
    {
        std::u32string r;
        for (auto c : s)
            decompose_to(c, r);
        return r;
    }

    inline std::u32string compose(std::u32string_view s)
    {
        std::u32string r;
        auto& m = uni().unpair;
        for (auto c : s)
        {
            if (!r.empty())
            {
                auto it = m.find({r.back(), c});
                if (it != m.end())
                {
                    r.back() = it->second;
                    continue;
                }
            }
            r.push_back(c);
        }
        return r;
    }

    struct Span
    {
        size_t b, e;
        bool operator==(const Span& o) const { return b == o.b && e == o.e; }
    };

    // Code points of a well-formed string as byte ranges.
    inline std::vector<Span> codepoints(std::string_view s)
    {
        std::vector<Span> r;
        for (auto& g : segment(s))
            r.push_back({g.b, g.e});
        return r;
    }

    // Characters (base and marks) of a well-formed string as byte ranges.
    inline std::vector<Span> characters(std::string_view s)
    {
        std::vector<Span> r;
        for (auto& g : segment(s))
        {
            if (!r.empty() && is_mark(g.cp))
                r.back().e = g.e;
            else
                r.push_back({g.b, g.e});
        }
        return r;
    }

    // Half-open slice [first, last) of n elements with Python-like indices.
    inline std::pair<size_t, size_t> slice(size_t n, ptrdiff_t start, ptrdiff_t end)
    {
        auto clamp = [n](ptrdiff_t i)
        {
            if (i >= 0)
                return size_t(i) > n ? n : size_t(i);
            if (i < -ptrdiff_t(n))
                return size_t(0);
            return n - size_t(-i);
        };
        size_t s = clamp(start), e = clamp(end);
        return {s, e > s ? e : s};
    }
}
