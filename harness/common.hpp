// Alphabets shared by the harnesses.
#pragma once
#include "mc.hpp"
#include "ref.hpp"
#include "Ystring/Subrange.hpp"

namespace mc
{
    using std::string;
    using std::string_view;
    using std::u32string;
    using std::vector;
    using namespace std::string_literals;
    using namespace std::string_view_literals;

    inline string show(const ystring::Subrange& r)
    {
        return "{" + show(r.offset) + ", " + show(r.length) + "}";
    }

    inline string show(const ref::Span& r)
    {
        return "[" + show(r.b) + ", " + show(r.e) + ")";
    }

    // A found range: exactly [b, e), with the observers agreeing.
    inline bool is_range(const ystring::Subrange& r, size_t b, size_t e)
    {
        return bool(r) == (b != e) && r.start() == b && r.end() == e && r.offset == b
               && r.length == e - b;
    }

    inline string u(char32_t c) { return ref::enc(c); }

    inline vector<string> us(std::u32string_view cps)
    {
        vector<string> r;
        for (auto c : cps)
            r.push_back(ref::enc(c));
        return r;
    }

    inline vector<string> bytes(std::initializer_list<int> l)
    {
        vector<string> r;
        for (int b : l)
            r.push_back(string(1, char(b)));
        return r;
    }

    template <typename T>
    vector<T> concat(vector<T> a, const vector<T>& b)
    {
        a.insert(a.end(), b.begin(), b.end());
        return a;
    }

    // One byte per class that the decoder distinguishes, with both ends.
    inline vector<string> byte_classes()
    {
        return bytes({'a', 0x7F, 0x80, 0xBF, 0xC0, 0xDF, 0xE0, 0xEF, 0xF0, 0xF4,
                      0xF7, 0xF8, 0xFF, 0x00, 0xC2, 0xA0});
    }

    inline vector<string> small_byte_classes()
    {
        return bytes({'a', 0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0xF8});
    }

    // Representatives of every general category, encoding length and case
    // peculiarity, and of every list the library keeps.
    inline const u32string& reps()
    {
        static const u32string r = []
        {
            u32string v =
                U"\0\a\t\n\v\f\r\x1B\x1F !\"$&'()+,-./0189:<=>?@AIKSZ[\\]^_`aisz{|}~\x7F"
                U"\u0080\u0085\u009F\u00A0\u00A2\u00AA\u00AB\u00AD\u00B2\u00B5\u00BB\u00BF\u00C0"
                U"\u00C4\u00C5\u00D7\u00DF\u00E0\u00E4\u00E5\u00F7\u00FF\u0100\u0130\u0131\u0149"
                U"\u0178\u017F\u01C4\u01C5\u01C6\u01F0\u02B0\u02C6\u0300\u0301\u0304\u0308\u030A"
                U"\u0345\u0346\u0370\u0390\u03A3\u03C2\u03C3\u03D0\u03F4\u0410\u0430\u0488\u0531"
                U"\u05D0\u05B0\u0660\u0627\u0653\u06DD\u07FF\u0800\u0903\u0915\u093C\u0BCA\u0E33\u0E40"
                U"\u10A0\u10D0\u1C90\u1100\u115F\u1161\u11A8\u1C80\u13A0\uAB70\u1E9B\u1E9E\u1F82\u1F88\u1FB3\u1FBE"
                U"\u2000\u200B\u200D\u2028\u2029\u202F\u203F\u2044\u20AC\u20DD\u2126\u2160\u2170\u212A"
                U"\u212B\u2212\u24B6\u24D0\u2500\u3000\u3007\u3042\u3046\u304B\u3099\u309B\u3400\u4DBF\u4E00"
                U"\u4E01\u9FFE\u9FFF\uA000\uA640\uA641\uA66F\uAC00\uAC01\uD7A3\uE000\uF8FF\uF900\uFB00\uFB1D"
                U"\uFDD0\uFE0F\uFE20\uFEFF\uFF21\uFF41\uFFFC\uFFFD\uFFFE\uFFFF"
                U"\U00010000\U00010400\U00010428\U00010450\U00011099\U0001109A\U000110BA\U00016FE0\U0001D157\U0001D165"
                U"\U0001D400\U0001E900\U0001E922\U0001F600\U00020000\U00020001\U0002A6DF\U000E0001\U000E0100\U000F0000"
                U"\U000FFFFD\U00100000\U0010FFFD\U0010FFFE\U0010FFFF"s;
            return v;
        }();
        return r;
    }

    // Byte counts around which buffers, counters and chunk sizes tend to end.
    inline vector<size_t> pump_counts(bool thorough)
    {
        vector<size_t> r;
        for (size_t k = 0; k <= (thorough ? 1100u : 280u); ++k)
            r.push_back(k);
        for (size_t p = 512; p <= (thorough ? 131072u : 65536u); p *= 2)
        {
            for (size_t d : {p - 1, p, p + 1})
            {
                if (d > r.back())
                    r.push_back(d);
            }
        }
        return r;
    }

    // Numbers that differ from small ones only in bits that a narrower or an unsigned
    // type has no place for: 2^k, 2^k - d, 2^k + d and their negations.
    inline const vector<ptrdiff_t>& wide_numbers()
    {
        static const auto& r = *new vector<ptrdiff_t>([]
        {
            vector<ptrdiff_t> v = {PTRDIFF_MAX, PTRDIFF_MAX - 1, PTRDIFF_MIN, PTRDIFF_MIN + 1, PTRDIFF_MIN + 2};
            for (int k : {7, 8, 15, 16, 31, 32, 33, 48, 62})
            {
                for (ptrdiff_t d = -3; d <= 3; ++d)
                {
                    v.push_back((ptrdiff_t(1) << k) + d);
                    v.push_back(-(ptrdiff_t(1) << k) + d);
                }
            }
            for (ptrdiff_t d = -3; d <= 3; ++d)
                v.push_back(d);
            return v;
        }());
        return r;
    }

    // All values that differ from cp in one bit, also ones that are no code points,
    // and what stands for no code point.
    inline u32string neighbours(char32_t cp, std::u32string_view but = {}, bool codepoints_only = false)
    {
        u32string r;
        for (int k = 0; k < 32; ++k)
        {
            char32_t o = cp ^ (char32_t(1) << k);
            if (but.find(o) == but.npos && (o <= ref::MAXCP || !codepoints_only))
                r += o;
        }
        if (!codepoints_only)
            r += char32_t(0xFFFFFFFF);
        return r;
    }

    inline string repeat(string_view s, size_t n)
    {
        string r;
        r.reserve(s.size() * n);
        for (size_t i = 0; i < n; ++i)
            r += s;
        return r;
    }

    // The symbols of texts for add_blocks: the code points below U+0250 and the
    // representatives; or all bytes and some code points.
    inline vector<string> block_symbols(bool malformed = false)
    {
        u32string v;
        if (!malformed)
        {
            for (char32_t c = 0; c < 0x250; ++c)
                v += c;
            for (auto c : reps())
            {
                if (c >= 0x250)
                    v += c;
            }
            return us(v);
        }
        vector<string> r;
        for (int b = 0; b < 256; ++b)
            r.push_back(string(1, char(b)));
        return concat(r, us(U"\u00C4\u00DF\u0301\u20AC\u2028\U0001F600"));
    }

    inline vector<string> few_block_symbols(bool malformed = false)
    {
        auto r = us(U"\0\n\r \"0@AZ[\\`az{\x7F\u0085\u00C4\u00DF\u0301\u2028\u20AC\U0001F600"s);
        return malformed ? concat(r, bytes({0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0xFF})) : r;
    }

    // Texts that have one or two symbols at any place among others, which code that
    // handles blocks of several bytes at a time may confuse: check(ctx, text, x, filler).
    template <typename Check>
    void add_blocks(Harness& h, const vector<string>& fillers, const vector<string>& symbols, const vector<string>& few, Check check)
    {
        size_t P = h.thorough ? 70 : 34;
        size_t nf = fillers.size(), nx = symbols.size();
        h.add("one-in-block", fmt("every one of %zu symbols after 0 to %zu and before 0 to 33 (9 counts) of each of %zu others", nx, P - 1, nf), nf * nx * P, [=](Ctx& c, uint64_t i)
        {
            auto& f = fillers[i % nf];
            auto& x = symbols[i / nf % nx];
            size_t k = i / nf / nx;
            c.sample([&] { return show(x) + " after " + show(k) + " times " + show(f); });
            auto head = repeat(f, k) + x;
            for (size_t q : {0, 1, 3, 7, 8, 15, 16, 17, 33})
                check(c, head + repeat(f, q), x, f);
        }, 16);
        vector<std::pair<string, string>> xy;
        for (auto& x : symbols)
        {
            for (auto& y : few)
            {
                xy.emplace_back(x, y);
                xy.emplace_back(y, x);
            }
        }
        vector<size_t> ds = h.thorough ? vector<size_t>{0, 1, 2, 3, 4, 5, 6, 7, 8, 15} : vector<size_t>{0, 1, 6, 7};
        size_t K = h.thorough ? 17 : 8;
        h.add("two-in-block", fmt("every ordered pair of one of %zu and one of %zu symbols, after 0 to %zu others, %zu distances apart, and before 17 others", nx, few.size(), K - 1, ds.size()),
              xy.size(), [=](Ctx& c, uint64_t i)
        {
            auto& f = fillers[0];
            auto& [x, y] = xy[i];
            c.sample([&] { return show(x) + " and " + show(y) + " among " + show(f); });
            auto tail = repeat(f, 17);
            for (size_t k = 0; k < K; ++k)
            {
                for (auto d : ds)
                    check(c, repeat(f, k) + x + repeat(f, d) + y + tail, x, f);
            }
        }, 4);
    }

    // Heap copy of exactly the string's bytes.
    struct Exact
    {
        std::unique_ptr<char[]> data;
        size_t size;

        explicit Exact(string_view s)
            : data(new char[s.size()]), size(s.size())
        {
            if (size)
                memcpy(data.get(), s.data(), size);
        }

        string_view view() const { return {data.get(), size}; }
    };

    inline bool inside(string_view part, string_view whole)
    {
        return part.data() >= whole.data()
               && part.data() + part.size() <= whole.data() + whole.size();
    }
}
