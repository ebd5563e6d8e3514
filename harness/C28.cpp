// C28: the library built with regenerated tables.
#include <set>
#include "common.hpp"
#include "Ystring/CodepointPredicates.hpp"
#include "Ystring/Normalize.hpp"
#include "Ystring/ConvertCase.hpp"

using namespace mc;
using namespace ystring;

static const uint32_t BITS[30] = {
    CharClass::UPPERCASE_LETTER, CharClass::LOWERCASE_LETTER, CharClass::TITLECASE_LETTER, CharClass::MODIFIER_LETTER, CharClass::OTHER_LETTER,
    CharClass::NONSPACING_MARK, CharClass::SPACING_MARK, CharClass::ENCLOSING_MARK, CharClass::DECIMAL_NUMBER, CharClass::LETTER_NUMBER, CharClass::OTHER_NUMBER,
    CharClass::CONNECTOR_PUNCTUATION, CharClass::DASH_PUNCTUATION, CharClass::OPEN_PUNCTUATION, CharClass::CLOSE_PUNCTUATION, CharClass::INITIAL_PUNCTUATION,
    CharClass::FINAL_PUNCTUATION, CharClass::OTHER_PUNCTUATION, CharClass::MATH_SYMBOL, CharClass::CURRENCY_SYMBOL, CharClass::MODIFIER_SYMBOL, CharClass::OTHER_SYMBOL,
    CharClass::SPACE_SEPARATOR, CharClass::LINE_SEPARATOR, CharClass::PARAGRAPH_SEPARATOR, CharClass::CONTROL, CharClass::FORMAT, CharClass::SURROGATE,
    CharClass::PRIVATE_USE, CharClass::UNASSIGNED};

static void composed(Ctx& c, const u32string& x)
{
    c.state();
    MC_EQ(c, to_composed(ref::enc(x)), ref::enc(ref::compose(x)), "to_composed(%s)", show(ref::enc(x)).c_str());
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    h.add("classes", "get_char_class for every value 0..1FFFFF, upwards and downwards", 0x200000 / 256, [](Ctx& c, uint64_t blk)
    {
        c.sample([&] { return fmt("class of %s and the next 255", show(char32_t(blk * 256)).c_str()); });
        for (uint32_t n = 0; n < 256; ++n)
        {
            for (auto cp : {char32_t(blk * 256 + n), char32_t(0x1FFFFF - blk * 256 - n)})
            {
                auto got = uint32_t(get_char_class(cp)), want = BITS[ref::gc(cp)];
                if (got != want)
                    c.fail(fmt("get_char_class(%s) = %08x, expected %08x", show(cp).c_str(), got, want));
                c.call();
                c.state();
                c.outcome(want * 0x9E3779B97F4A7C15ULL);
            }
        }
    });
    h.add("case", "to_lower, to_upper and to_title for every value 0..1FFFFF", 0x200000 / 256, [](Ctx& c, uint64_t blk)
    {
        c.sample([&] { return fmt("mappings of %s and the next 255", show(char32_t(blk * 256)).c_str()); });
        for (char32_t cp = char32_t(blk * 256), n = 0; n < 256; ++n, ++cp)
        {
            MC_EQ(c, to_lower(cp), ref::lower(cp), "to_lower(%s)", show(cp).c_str());
            MC_EQ(c, to_upper(cp), ref::upper(cp), "to_upper(%s)", show(cp).c_str());
            MC_EQ(c, to_title(cp), ref::title(cp), "to_title(%s)", show(cp).c_str());
            c.state();
        }
    });
    h.add("decompositions", "decompose for every value 0..1FFFFF", 0x200000 / 256, [](Ctx& c, uint64_t blk)
    {
        c.sample([&] { return fmt("decompositions of %s and the next 255", show(char32_t(blk * 256)).c_str()); });
        for (char32_t cp = char32_t(blk * 256), n = 0; n < 256; ++n, ++cp)
        {
            u32string want;
            ref::decompose_to(cp, want);
            c.state();
            MC_EQ(c, decompose(cp), want, "decompose(%s)", show(cp).c_str());
        }
    });
    static u32string firsts, seconds;
    std::set<char32_t> f, s;
    for (auto& [c, p] : ref::uni().pair)
        f.insert(p.first), s.insert(p.second);
    firsts.assign(f.begin(), f.end());
    seconds.assign(s.begin(), s.end());
    h.add("compositions", fmt("every code point with all %zu second parts, and all %zu first parts with every %scode point", seconds.size(), firsts.size(), T ? "" : "16th (and each second part's neighbouring) "), 0x110000 / 256, [T](Ctx& c, uint64_t blk)
    {
        c.sample([&] { return fmt("pairs with %s and the next 255", show(char32_t(blk * 256)).c_str()); });
        for (char32_t cp = char32_t(blk * 256), n = 0; n < 256; ++n, ++cp)
        {
            for (auto m : seconds)
                composed(c, {cp, m});
            bool near = seconds.find(cp + 1) != u32string::npos || seconds.find(cp - 1) != u32string::npos;
            if (!T && n % 16 != blk % 16 && !near)
                continue;
            for (auto x : firsts)
                composed(c, {x, cp});
        }
    });
}
