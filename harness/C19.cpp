// C19: character classes.
#include "common.hpp"
#include "Ystring/CodepointPredicates.hpp"

using namespace mc;
using namespace ystring;

static uint32_t cls(char32_t c)
{
    return uint32_t(1) << unsigned(ref::gc(c));
}

// Bits of the library's enum, in the order of the general categories.
static const uint32_t BITS[30] = {
    CharClass::UPPERCASE_LETTER, CharClass::LOWERCASE_LETTER, CharClass::TITLECASE_LETTER, CharClass::MODIFIER_LETTER, CharClass::OTHER_LETTER,
    CharClass::NONSPACING_MARK, CharClass::SPACING_MARK, CharClass::ENCLOSING_MARK, CharClass::DECIMAL_NUMBER, CharClass::LETTER_NUMBER, CharClass::OTHER_NUMBER,
    CharClass::CONNECTOR_PUNCTUATION, CharClass::DASH_PUNCTUATION, CharClass::OPEN_PUNCTUATION, CharClass::CLOSE_PUNCTUATION, CharClass::INITIAL_PUNCTUATION,
    CharClass::FINAL_PUNCTUATION, CharClass::OTHER_PUNCTUATION, CharClass::MATH_SYMBOL, CharClass::CURRENCY_SYMBOL, CharClass::MODIFIER_SYMBOL, CharClass::OTHER_SYMBOL,
    CharClass::SPACE_SEPARATOR, CharClass::LINE_SEPARATOR, CharClass::PARAGRAPH_SEPARATOR, CharClass::CONTROL, CharClass::FORMAT, CharClass::SURROGATE,
    CharClass::PRIVATE_USE, CharClass::UNASSIGNED};

static void one(Ctx& c, char32_t cp)
{
    using namespace ref;
    auto g = ref::gc(cp);
    auto got = uint32_t(get_char_class(cp));
    if (got != BITS[g])
        c.fail(fmt("get_char_class(%s) = %08x, expected %08x", show(cp).c_str(), got, BITS[g]));
    auto in = [&](std::initializer_list<Gc> l)
    {
        for (auto x : l)
        {
            if (x == g)
                return true;
        }
        return false;
    };
    bool letter = in({Lu, Ll, Lt, Lm, Lo}), mark = in({Mn, Mc, Me}), number = in({Nd, Nl, No}), punct = in({Pc, Pd, Ps, Pe, Pi, Pf, Po}), symbol = in({Sm, Sc, Sk, So}),
         sep = in({Zs, Zl, Zp});
    bool newline = cp == 0xA || cp == 0xB || cp == 0xC || cp == 0xD || cp == 0x85 || cp == 0x2028 || cp == 0x2029;
    bool graphical = letter || mark || number || punct || symbol;
    struct { const char* name; bool got, want; } t[] = {
        {"is_alpha_numeric", is_alpha_numeric(cp), letter || number},
        {"is_cased_letter", is_cased_letter(cp), in({Lu, Ll, Lt})},
        {"is_control", is_control(cp), g == Cc},
        {"is_format", is_format(cp), g == Cf},
        {"is_graphical", is_graphical(cp), graphical},
        {"is_hex_digit", is_hex_digit(cp), cp < 128 && cp && strchr("0123456789abcdefABCDEF", int(cp))},
        {"is_letter", ystring::is_letter(cp), letter},
        {"is_lower", is_lower(cp), g == Ll},
        {"is_mark", ystring::is_mark(cp), mark},
        {"is_newline", is_newline(cp), newline},
        {"is_number", is_number(cp), number},
        {"is_punctuation", is_punctuation(cp), punct},
        {"is_separator", is_separator(cp), sep},
        {"is_surrogate", is_surrogate(cp), g == Cs},
        {"is_symbol", is_symbol(cp), symbol},
        {"is_upper", is_upper(cp), g == Lu},
        {"is_visible", is_visible(cp), graphical || sep},
        {"is_whitespace", is_whitespace(cp), cp == 9 || newline || sep},
    };
    uint64_t h = g;
    for (auto& x : t)
    {
        if (x.got != x.want)
            c.fail(fmt("%s(%s) = %s", x.name, show(cp).c_str(), show(x.got).c_str()));
        h = h * 2 + x.got;
    }
    if (cp <= ref::MAXCP)
        c.outcome(h * 0x10001);
    c.call(1 + std::size(t));
    c.state();
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    h.add("class-values", "the composite constants are the unions they are documented to be", 1, [](Ctx& c, uint64_t)
    {
        uint32_t all = 0;
        for (auto b : BITS)
        {
            MC_OK(c, b && !(b & (b - 1)) && !(all & b), "class bit %08x is not a bit of its own", b);
            all |= b;
        }
        auto un = [&](int from, int to)
        {
            uint32_t v = 0;
            for (int i = from; i <= to; ++i)
                v |= BITS[i];
            return v;
        };
        MC_EQ(c, unsigned(CharClass::CASED_LETTER), un(0, 2), "CASED_LETTER");
        MC_EQ(c, unsigned(CharClass::LETTER), un(0, 4), "LETTER");
        MC_EQ(c, unsigned(CharClass::MARK), un(5, 7), "MARK");
        MC_EQ(c, unsigned(CharClass::NUMBER), un(8, 10), "NUMBER");
        MC_EQ(c, unsigned(CharClass::PUNCTUATION), un(11, 17), "PUNCTUATION");
        MC_EQ(c, unsigned(CharClass::SYMBOL), un(18, 21), "SYMBOL");
        MC_EQ(c, unsigned(CharClass::SEPARATOR), un(22, 24), "SEPARATOR");
        MC_EQ(c, unsigned(CharClass::OTHER), un(25, 29), "OTHER");
        MC_EQ(c, unsigned(CharClass::NONSPACING_MARK), 0x20u, "NONSPACING_MARK");
        c.state(30);
        c.sample([] { return string("LETTER = Lu | Ll | Lt | Lm | Lo"); });
    });
    h.add("codepoints", "class and 18 predicates for every value 0..1FFFFF, the code points upwards", 0x200000 / 256, [](Ctx& c, uint64_t blk)
    {
        c.sample([&] { return "class and predicates of " + show(char32_t(blk * 256)) + " and the next 255"; });
        for (char32_t cp = char32_t(blk * 256), n = 0; n < 256; ++n, ++cp)
            one(c, cp);
    });
    h.add("codepoints-downwards", "class and predicates for every value 10FFFF..0, downwards with a far one in between", 0x110000 / 256, [](Ctx& c, uint64_t blk)
    {
        for (uint32_t n = 0; n < 256; ++n)
        {
            one(c, char32_t(0x10FFFF - blk * 256 - n));
            one(c, char32_t((blk * 256 + n) * 0x9E375u % 0x110000));
        }
    });
    {
        uint64_t blocks = T ? 0x10000 - 0x20 : 0x200;
        h.add("large-values", T ? "every value from 200000 to FFFFFFFF" : "2^25 values above 1FFFFF: the 2^16 at each end of every 2^23 block", blocks, [T](Ctx& c, uint64_t blk)
        {
            uint64_t from = T ? 0x200000 + blk * 0x10000 : blk * 0x800000;
            auto sweep = [&](uint64_t a)
            {
                for (uint64_t v = a; v < a + 0x10000 && v <= 0xFFFFFFFF; ++v)
                {
                    if (v >= 0x200000)
                        one(c, char32_t(v));
                }
            };
            sweep(from);
            if (!T)
                sweep(from + 0x7F0000);
        }, 4);
    }
}
