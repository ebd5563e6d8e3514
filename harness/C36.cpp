// C36: what predicates and token finders are given, and what happens when they throw
// or call the library themselves.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"
#include "Ystring/CaseInsensitive.hpp"
#include "Ystring/CharClass.hpp"
#include "Ystring/CodepointPredicates.hpp"
#include "Ystring/ConvertCase.hpp"
#include "Ystring/Escape.hpp"
#include "Ystring/Normalize.hpp"
#include "Ystring/TokenIterator.hpp"
#include "Ystring/Unescape.hpp"
#include "Ystring/Utf32.hpp"

using namespace mc;
using namespace ystring;
using std::u32string_view;
namespace ci = ystring::case_insensitive;

// Not derived from std::exception.
struct Thrown
{
    int number;
    const void* id;
};

// Everything one call did, as text.
struct Seen
{
    u32string given;   // to the predicate, in order
    string outcome;    // result or exception

    bool operator==(const Seen&) const = default;
};

static string show(const Seen& s) { return "predicate given " + mc::show(s.given) + ", then " + s.outcome; }

using Pred = std::function<bool(char32_t)>;

// The templates that take a predicate.
enum Template { FIND_FIRST, FIND_LAST, TRIM_START, TRIM_END, TRIM, TEMPLATES };
static const char* const NAMES[] = {"find_first_where", "find_last_where", "trim_start_where", "trim_end_where", "trim_where"};

static string piece(string_view s, size_t b, size_t e) { return mc::fmt("[%zu, %zu)", b, e); }

// The model scans a list of code points; UINT32_MAX stands for a malformed sequence.
struct Unit
{
    size_t b, e;
    char32_t c;
};

// The length of the well-formed sequence that starts at i, or 0.
static size_t starts_at(string_view s, size_t i)
{
    int n = ref::need(static_cast<unsigned char>(s[i]));
    if (n < 0 || size_t(n) >= s.size() - i)
        return 0;
    for (int k = 1; k <= n; ++k)
    {
        if (!ref::is_cont(static_cast<unsigned char>(s[i + k])))
            return 0;
    }
    return size_t(n) + 1;
}

static char32_t value(string_view s, size_t b, size_t n)
{
    char32_t r = static_cast<unsigned char>(s[b]);
    if (n > 1)
        r &= 0x7Fu >> n;
    for (size_t k = 1; k < n; ++k)
        r = r << 6 | (s[b + k] & 0x3F);
    return r;
}

// The code points met from either end up to the first malformed sequence.
static vector<Unit> forward(string_view s, size_t from)
{
    vector<Unit> r;
    size_t i = from;
    while (i < s.size())
    {
        size_t n = starts_at(s, i);
        if (!n)
        {
            r.push_back({i, i, 0xFFFFFFFF});
            break;
        }
        r.push_back({i, i + n, value(s, i, n)});
        i += n;
    }
    return r;
}

static vector<Unit> backward(string_view s, size_t to)
{
    vector<Unit> r;
    size_t i = to;
    while (i > 0)
    {
        size_t n = 0;
        for (size_t k = 1; k <= 4 && k <= i && !n; ++k)
        {
            if (starts_at(s.substr(0, i), i - k) == k)
                n = k;
        }
        if (!n)
        {
            r.push_back({i, i, 0xFFFFFFFF});
            break;
        }
        r.push_back({i - n, i, value(s, i - n, n)});
        i -= n;
    }
    return r;
}

static Seen model(Template t, string_view s, size_t offset, u32string_view in, size_t throw_at)
{
    Seen r;
    auto scan = [&](const vector<Unit>& us, bool stop_at) -> const Unit*
    {
        for (auto& u : us)
        {
            if (u.c == 0xFFFFFFFF)
            {
                r.outcome = "YstringException";
                return nullptr;
            }
            r.given.push_back(u.c);
            if (r.given.size() == throw_at)
            {
                r.outcome = mc::fmt("Thrown %zu", throw_at);
                return nullptr;
            }
            if ((in.find(u.c) != in.npos) == stop_at)
                return &u;
        }
        return nullptr;
    };
    switch (t)
    {
    case FIND_FIRST:
    case FIND_LAST:
    {
        auto us = t == FIND_FIRST ? forward(s, offset) : backward(s, offset);
        if (auto u = scan(us, true))
            r.outcome = piece(s, u->b, u->e) + mc::show(u->c);
        break;
    }
    case TRIM_START:
    {
        auto us = forward(s, 0);
        if (auto u = scan(us, false))
            r.outcome = piece(s, u->b, s.size());
        break;
    }
    case TRIM_END:
    {
        auto us = backward(s, s.size());
        if (auto u = scan(us, false))
            r.outcome = piece(s, 0, u->e);
        break;
    }
    default:
    {
        auto us = forward(s, 0);
        auto u = scan(us, false);
        if (!u)
            break;
        auto b = u->b;
        auto vs = backward(s.substr(b), s.size() - b);
        if (auto v = scan(vs, false))
            r.outcome = piece(s, b, b + v->e);
        break;
    }
    }
    if (r.outcome.empty())
        r.outcome = "nothing";
    return r;
}

template <typename P>
static string result(Template t, string_view s, size_t offset, P pred)
{
    if (t == FIND_FIRST || t == FIND_LAST)
    {
        auto [sub, ch] = t == FIND_FIRST ? find_first_where(s, pred, offset) : find_last_where(s, pred, offset);
        return sub ? piece(s, sub.start(), sub.end()) + mc::show(ch) : "nothing";
    }
    auto v = t == TRIM_START ? trim_start_where(s, pred) : t == TRIM_END ? trim_end_where(s, pred) : trim_where(s, pred);
    if (v.empty())
        return "nothing";
    size_t b = size_t(v.data() - s.data());
    return piece(s, b, b + v.size());
}

static Seen real(Ctx& c, Template t, string_view s, size_t offset, u32string_view in, size_t throw_at, bool* same)
{
    Seen r;
    c.call();
    c.note(NAMES[t]);
    Thrown thrown{int(throw_at), &r};
    try
    {
        r.outcome = result(t, s, offset, [&](char32_t ch)
        {
            r.given.push_back(ch);
            if (r.given.size() == throw_at)
                throw thrown;
            return in.find(ch) != in.npos;
        });
    }
    catch (const YstringException&)
    {
        r.outcome = "YstringException";
    }
    catch (Thrown& e)
    {
        r.outcome = mc::fmt("Thrown %d", e.number);
        *same = e.id == &r;
    }
    return r;
}

static void predicates(Ctx& c, string_view s, const vector<u32string>& lists, bool all_offsets)
{
    for (int k = 0; k < TEMPLATES; ++k)
    {
        auto t = Template(k);
        vector<size_t> offsets{t == FIND_FIRST ? 0 : s.size()};
        if (all_offsets && (t == FIND_FIRST || t == FIND_LAST))
        {
            offsets.clear();
            for (size_t i = 0; i <= s.size(); ++i)
                offsets.push_back(i);
        }
        for (auto offset : offsets)
        {
            for (auto& in : lists)
            {
                auto full = model(t, s, offset, in, 0);
                for (size_t at = 0; at <= full.given.size(); ++at)
                {
                    auto want = model(t, s, offset, in, at);
                    bool same = true;
                    auto got = real(c, t, s, offset, in, at, &same);
                    c.state();
                    c.outcome(hash(got.outcome) + hash(u32string_view(got.given)));
                    MC_OK(c, got == want, "%s(%s, in %s, offset %zu), predicate throwing at call %zu: %s; expected %s", NAMES[t], mc::show(s).c_str(), mc::show(u32string_view(in)).c_str(), offset,
                          at, show(got).c_str(), show(want).c_str());
                    MC_OK(c, same, "%s(%s): another exception object's contents", NAMES[t], mc::show(s).c_str());
                }
            }
        }
    }
}

// Calls the library in many ways and tells what came out.
static uint64_t inner(unsigned which, char32_t ch)
{
    auto e = from_utf32(ch);
    auto h = [](auto&& s) { return hash(string_view(s)); };
    switch (which)
    {
    case 0: return h(to_upper("stra\u00DFe " + e)) + h(to_lower("\u00C4\u0100" + e)) + h(to_title("abc \u00E4" + e));
    case 1: return h(to_composed("A\u0308" + e + "\u0301")) + h(to_decomposed("\u1E09\u1FB3" + e)) + decompose(U'\u0390').size();
    case 2: return h(escape_json("\x01\"" + e)) + h(unescape("\\u00E4\\x41\\n")) + size_t(find_first_escaped_char("abc\\n").offset);
    case 3: return size_t(find_first_where("ab,c" + e, [](char32_t x) { return x == ','; }).first.offset) + size_t(find_last_where(e + "a,bc", [](char32_t x) { return x == ','; }).first.offset);
    case 4: return h(trim_where("  x" + e + "  ", [](char32_t x) { return x == ' '; })) + h(trim("\t a " + e + "\n"));
    case 5: return split("a,b;" + e + ",,", U",;"sv).size() + split_where("a,b" + e, [](string_view s) { return find_first(s, ","); }).size() + split_lines("a\nb\r\n" + e).size();
    case 6: return h(replace("abcabc" + e, "b", "xyz", -1)) + h(ci::replace("ABCabc" + e, "B", "\u20AC")) + h(replace_invalid_utf8("a\xFF" + e)) + h(replace_codepoint("aba" + e, 'a', U'\u00E9'));
    case 7: return size_t(ci::compare("Stra\u00DFe" + e, "STRASSE" + e)) + ci::find_first("xyzABC" + e, "abc").offset + ci::find_last("ABCxyz" + e, "abc").offset;
    case 8: return h(reverse("ae\u0301o" + e)) + count_chars("ae\u0301o" + e) + h(get_char_substring("ae\u0301o" + e, 1, -1)) + h(insert_char("ae\u0301o" + e, -1, 'x'));
    case 9: return hash(u32string_view(to_utf32("a\u20AC" + e))) + h(from_utf32(U"a\u20AC"sv)) + uint64_t(get_char_class(ch)) + to_upper(ch) + is_mark(ch);
    case 10:
    {
        // An exception inside.
        try
        {
            (void)to_utf32("a" + e + "\xFF");
        }
        catch (const YstringException&)
        {
            return 77;
        }
        return 0;
    }
    default:
    {
        string_view v = "\\u0041\\x42";
        uint64_t r = 0;
        while (auto x = unescape_next(v))
            r = r * 31 + *x;
        CodepointSet set;
        set.add_codepoints(U"abc");
        set.add_codepoint(ch);
        return r + set.contains('b') + 2 * set.case_insensitive_contains('B');
    }
    }
}
static constexpr unsigned INNER = 12;

// A finder that records, and throws at the calls whose bits are set.
struct Script
{
    string_view separators;
    unsigned mask = 0;
    unsigned calls = 0;
    vector<string_view> given;

    Subrange operator()(string_view s)
    {
        given.push_back(s);
        if (mask >> calls++ & 1)
            throw Thrown{int(calls), this};
        auto p = s.find_first_of(separators);
        return p == s.npos ? Subrange() : Subrange(p, 1);
    }
};

static string pieces(string_view s, const TokenIterator<std::function<Subrange(string_view)>>& it)
{
    auto p = [&](string_view v) { return v.empty() ? string("-") : piece(s, size_t(v.data() - s.data()), size_t(v.data() - s.data()) + v.size()); };
    return string(bool(it) ? "on a token: " : "not on a token: ") + p(it.part()) + p(it.token()) + p(it.remainder());
}

using Finder = std::function<Subrange(string_view)>;

// All histories in which the calls of mask throw; what is seen after each call must be
// what the history without them shows.
static void tokens(Ctx& c, string_view s, unsigned mask)
{
    vector<string> quiet;
    vector<string_view> given;
    {
        Script script{",;"};
        TokenIterator<Finder> it(s, [&](string_view v) { return script(v); });
        quiet.push_back(pieces(s, it));
        while (it.next())
            quiet.push_back(pieces(s, it));
        given = script.given;
        MC_OK(c, given.size() + 1 == quiet.size(), "TokenIterator(%s): the finder is called %zu times, next() gave %zu pieces", mc::show(s).c_str(), given.size(), quiet.size() - 1);
        size_t at = 0;
        for (auto& v : given)
        {
            MC_OK(c, v.size() == s.size() - at && (v.empty() || v.data() == s.data() + at), "TokenIterator(%s): the finder is given %s, expected what begins at %zu", mc::show(s).c_str(),
                  mc::show(v).c_str(), at);
            auto p = v.find_first_of(",;");
            at = p == v.npos ? s.size() : at + p + 1;
        }
    }
    Script script{",;", mask};
    TokenIterator<Finder> it(s, [&](string_view v) { return script(v); });
    size_t at = 0, step = 0, threw = 0;
    while (true)
    {
        ++step;
        c.call();
        c.state();
        bool more;
        bool raised = false;
        try
        {
            more = it.next();
        }
        catch (const Thrown& e)
        {
            raised = true;
            ++threw;
            MC_OK(c, e.id == &script, "TokenIterator(%s): another exception", mc::show(s).c_str());
        }
        catch (const std::exception& e)
        {
            c.fail(mc::fmt("TokenIterator(%s), finder throwing at calls of mask %X: next() number %zu throws %s", mc::show(s).c_str(), mask, step, e.what()));
        }
        if (raised)
        {
            MC_OK(c, mask >> (script.calls - 1) & 1, "TokenIterator(%s): an exception that was not thrown now", mc::show(s).c_str());
            MC_OK(c, script.given.back().size() == given[at].size(), "TokenIterator(%s), finder throwing at calls of mask %X: call %u is given %s, expected %s", mc::show(s).c_str(), mask,
                  script.calls, mc::show(script.given.back()).c_str(), mc::show(given[at]).c_str());
        }
        else
        {
            bool want = at + 1 < quiet.size();
            MC_OK(c, more == want, "TokenIterator(%s), finder throwing at calls of mask %X: next() number %zu returns %d", mc::show(s).c_str(), mask, step, int(more));
            if (!more)
                break;
            ++at;
        }
        auto now = pieces(s, it);
        MC_OK(c, now == quiet[at], "TokenIterator(%s), finder throwing at calls of mask %X, after call %zu: %s; expected %s", mc::show(s).c_str(), mask, step, now.c_str(), quiet[at].c_str());
        c.outcome(hash(now) + mask);
    }
}

// A finder that keeps its state in itself: looks for another separator each time.
struct Stateful
{
    string_view seps;
    size_t calls = 0;

    Subrange operator()(string_view v)
    {
        auto p = v.find(seps[std::min(calls++, seps.size() - 1)]);
        return p == v.npos ? Subrange(v.size()) : Subrange(p, 1);
    }
};

// The finder of an iterator is one object, and that of a copied iterator a copy of it.
static void stateful(Ctx& c, string_view s, string_view seps)
{
    vector<string_view> parts;
    size_t at = 0;
    for (size_t k = 0;; ++k)
    {
        auto p = s.find(seps[std::min(k, seps.size() - 1)], at);
        parts.push_back(s.substr(at, p == s.npos ? p : p - at));
        if (p == s.npos)
            break;
        at = p + 1;
    }
    auto same = [&](string_view a, string_view b) { return a.size() == b.size() && (a.empty() || a.data() == b.data()); };
    const Stateful finder{seps};
    for (size_t copied = 0; copied <= parts.size(); ++copied)
    {
        TokenIterator<Stateful> it(s, finder), copy = it;
        auto go = [&](TokenIterator<Stateful>& it, size_t from, size_t to, const char* what)
        {
            for (size_t k = from; k < to; ++k)
            {
                c.call();
                bool more = it.next();
                MC_OK(c, more == (k < parts.size()), "TokenIterator(%s, finder looking for %s in turn)%s: next() number %zu returns %d", mc::show(s).c_str(), mc::show(seps).c_str(), what, k + 1, int(more));
                if (more)
                    MC_OK(c, same(it.part(), parts[k]), "TokenIterator(%s, finder looking for %s in turn)%s: part %zu is %s, expected %s", mc::show(s).c_str(), mc::show(seps).c_str(), what, k + 1,
                          mc::show(it.part()).c_str(), mc::show(parts[k]).c_str());
            }
        };
        c.state();
        go(it, 0, copied, "");
        copy = it;
        go(it, copied, parts.size() + 1, ", copied");
        go(copy, copied, parts.size() + 1, ", the copy");
    }
    c.call();
    auto got = split_where(s, finder);
    bool ok = got.size() == parts.size();
    for (size_t k = 0; ok && k < got.size(); ++k)
        ok = same(got[k], parts[k]);
    MC_OK(c, ok, "split_where(%s, finder looking for %s in turn): %s, expected %s", mc::show(s).c_str(), mc::show(seps).c_str(), mc::show(got).c_str(), mc::show(parts).c_str());
    c.outcome(hash(mc::show(got)));
}

static void split_where_calls(Ctx& c, string_view s, SplitParams params)
{
    Script model{",;"};
    vector<string_view> want;
    size_t at = 0;
    bool end = false;
    while (!end && want.size() < params.max_splits)
    {
        auto r = model(s.substr(at));
        auto e = r ? at + r.offset : s.size();
        if (!params.ignore_empty || e != at)
            want.push_back(s.substr(at, e - at));
        if (r)
            at = e + 1;
        else
            end = true;
    }
    for (size_t at = 0; at <= model.given.size(); ++at)
    {
        Script script{",;", at ? 1u << (at - 1) : 0};
        c.call();
        c.state();
        int thrown = 0;
        try
        {
            (void)split_where(s, [&](string_view v) { return script(v); }, params);
        }
        catch (const Thrown& e)
        {
            thrown = e.number;
        }
        auto n = at ? at : model.given.size();
        MC_OK(c, thrown == int(at), "split_where(%s, {%zu, %d}), finder throwing at call %zu: %s", mc::show(s).c_str(), params.max_splits, int(params.ignore_empty), at,
              thrown ? "another exception" : "no exception");
        bool same = script.given.size() == n;
        for (size_t i = 0; same && i < n; ++i)
            same = script.given[i].size() == model.given[i].size() && (script.given[i].empty() || script.given[i].data() == model.given[i].data());
        MC_OK(c, same, "split_where(%s, {%zu, %d}), finder throwing at call %zu: the finder is given %s, expected %s", mc::show(s).c_str(), params.max_splits, int(params.ignore_empty), at,
              mc::show(script.given).c_str(), mc::show(model.given).c_str());
    }
}

// Library functions as finders on malformed text: the exception leaves everything as it was.
static void malformed_tokens(Ctx& c, string_view s)
{
    vector<std::pair<const char*, Finder>> fs = {
        {"find_first_of", [](string_view v) { return find_first_of(v, U",\u00E9"sv).first; }},
        {"find_first_newline", [](string_view v) { return find_first_newline(v); }},
        {"case_insensitive::find_first", [](string_view v) { return ci::find_first(v, "\u00E9"); }},
    };
    for (auto& [name, f] : fs)
    {
        TokenIterator<Finder> it(s, f);
        auto before = pieces(s, it);
        size_t at = 0;
        int raised = 0;
        for (size_t step = 0; step < 12 && raised < 3; ++step)
        {
            string want;
            Subrange r;
            bool bad = false;
            try
            {
                r = f(s.substr(at));
            }
            catch (const YstringException&)
            {
                bad = true;
            }
            c.call();
            c.state();
            try
            {
                bool more = it.next();
                MC_OK(c, !bad, "TokenIterator(%s, %s): next() number %zu returns %d instead of throwing", mc::show(s).c_str(), name, step + 1, int(more));
                if (!more || !it)
                    break;
                at += r.end();
                before = pieces(s, it);
            }
            catch (const YstringException&)
            {
                MC_OK(c, bad, "TokenIterator(%s, %s): next() number %zu throws", mc::show(s).c_str(), name, step + 1);
                ++raised;
            }
            auto now = pieces(s, it);
            MC_OK(c, now == before, "TokenIterator(%s, %s), after next() number %zu threw: %s; before: %s", mc::show(s).c_str(), name, step + 1, now.c_str(), before.c_str());
            c.outcome(hash(now));
        }
    }
}

// Exceptions of every kind, also such as the library throws itself.
static const vector<std::pair<const char*, std::exception_ptr>>& exceptions()
{
    static const vector<std::pair<const char*, std::exception_ptr>> r = {
        {"a struct", std::make_exception_ptr(Thrown{1, nullptr})},
        {"std::runtime_error", std::make_exception_ptr(std::runtime_error("x"))},
        {"std::logic_error", std::make_exception_ptr(std::logic_error("x"))},
        {"std::out_of_range", std::make_exception_ptr(std::out_of_range("x"))},
        {"std::length_error", std::make_exception_ptr(std::length_error("x"))},
        {"std::bad_alloc", std::make_exception_ptr(std::bad_alloc())},
        {"std::exception", std::make_exception_ptr(std::exception())},
        {"YstringException", std::make_exception_ptr(YstringException("x"))},
        {"int", std::make_exception_ptr(42)},
        {"a string literal", std::make_exception_ptr(static_cast<const char*>("x"))},
        {"std::string", std::make_exception_ptr(string("x"))},
        {"bool", std::make_exception_ptr(false)},
    };
    return r;
}

// Whatever is thrown at call number at is what arrives: the same object.
static void kinds(Ctx& c, string_view s, u32string_view in)
{
    for (auto& [name, ex] : exceptions())
    {
        auto arrives = [&](const char* what, size_t at, auto call)
        {
            c.call();
            c.state();
            std::exception_ptr got;
            try
            {
                call();
            }
            catch (...)
            {
                got = std::current_exception();
            }
            MC_OK(c, got == ex, "%s(%s): %s thrown at call %zu %s", what, mc::show(s).c_str(), name, at, got ? "arrives as another exception" : "does not arrive");
            c.outcome(hash(string_view(name)) + hash(string_view(what)) + at);
        };
        for (int k = 0; k < TEMPLATES; ++k)
        {
            auto t = Template(k);
            size_t n = model(t, s, k == FIND_FIRST ? 0 : s.size(), in, 0).given.size();
            for (size_t at = 1; at <= n; ++at)
            {
                size_t calls = 0;
                arrives(NAMES[k], at, [&]
                {
                    (void)result(t, s, k == FIND_FIRST ? 0 : s.size(), [&](char32_t ch)
                    {
                        if (++calls == at)
                            std::rethrow_exception(ex);
                        return in.find(ch) != in.npos;
                    });
                });
            }
        }
        Script model{","};
        for (size_t i = 0; i <= s.size();)
        {
            auto r = model(s.substr(i));
            if (!r)
                break;
            i += r.end();
        }
        for (size_t at = 1; at <= model.given.size(); ++at)
        {
            size_t calls = 0;
            auto finder = [&](string_view v)
            {
                if (++calls == at)
                    std::rethrow_exception(ex);
                auto p = v.find(',');
                return p == v.npos ? Subrange() : Subrange(p, 1);
            };
            arrives("split_where", at, [&] { (void)split_where(s, finder); });
            calls = 0;
            arrives("split_where ignoring empty parts", at, [&] { (void)split_where(s, finder, IGNORE_EMPTY); });
            calls = 0;
            arrives("TokenIterator", at, [&]
            {
                TokenIterator it(s, finder);
                while (it.next())
                {}
            });
        }
    }
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    {
        auto syms = us(U"a, \u00E9\u20AC\U0001F600");
        StringSpace sp(syms, 0, T ? 4 : 3);
        h.add("exceptions", fmt("all texts of up to %d of {a , space e-acute euro U+1F600}, 5 templates with 4 predicates, split_where and TokenIterator: exceptions of %zu types thrown at every call arrive as the same object", T ? 4 : 3, exceptions().size()),
              sp.count(), [=](Ctx& c, uint64_t i)
        {
            Exact e(sp.get(i));
            for (auto in : {U""sv, U"a"sv, U"a, "sv, U"a, \u00E9\u20AC\U0001F600"sv})
                kinds(c, e.view(), in);
            c.sample([&] { return "exceptions of all kinds on " + show(e.view()); });
        }, 4);
    }
    {
        auto syms = concat(us(U"a \u00E9\u0301\u20AC\U0001F600"), bytes({0xFF, 0xC3}));
        StringSpace sp(syms, 0, T ? 5 : 4);
        vector<u32string> lists{U"", U"a", U" ", U"\u00E9", U"a \u0301", U"\u20AC\U0001F600", U"a\u00E9\u0301\u20AC\U0001F600", U"a \u00E9\u0301\u20AC\U0001F600"};
        h.add("predicates", fmt("all texts of up to %d of {a space e-acute U+0301 euro U+1F600, bytes FF C3}, 5 templates, 8 predicates, every offset; the predicate throws at every call or never", T ? 5 : 4),
              sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            Exact e(s);
            predicates(c, e.view(), lists, s.size() <= 12);
            c.sample([&] { return "predicate calls on " + show(s); });
        }, 8);
    }
    {
        auto syms = concat(us(U"a \u00E9\u0301\u20AC\U0001F600"), bytes({0xFF, 0xC3}));
        StringSpace sp(syms, 0, T ? 5 : 4);
        vector<u32string> lists{U"a", U"\u00E9 ", U"a \u0301", U"a \u00E9\u0301\u20AC\U0001F600"};
        h.add("other-results", fmt("all texts of up to %d of the same, 5 templates, 4 predicates that return numbers (2, -1, 128, 2^40, 0.25) or take their argument otherwise", T ? 5 : 4), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            for (auto& in : lists)
            {
                for (int k = 0; k < TEMPLATES; ++k)
                {
                    auto t = Template(k);
                    auto off = t == FIND_FIRST ? 0 : s.size();
                    auto want = model(t, s, off, in, 0).outcome;
                    auto try_it = [&](auto pred, const char* what)
                    {
                        c.call();
                        string got;
                        try
                        {
                            got = result(t, s, off, pred);
                        }
                        catch (const YstringException&)
                        {
                            got = "YstringException";
                        }
                        MC_OK(c, got == want, "%s(%s) with a predicate %s: %s, expected %s", NAMES[t], mc::show(s).c_str(), what, got.c_str(), want.c_str());
                    };
                    auto has = [&](char32_t ch) { return in.find(ch) != in.npos; };
                    c.state();
                    try_it([&](char32_t ch) -> int { return has(ch) ? 2 : 0; }, "that returns 2");
                    try_it([&](char32_t ch) -> int { return has(ch) ? -1 : 0; }, "that returns -1");
                    try_it([&](char32_t ch) -> unsigned char { return has(ch) ? 0x80 : 0; }, "that returns the byte 80");
                    try_it([&](char32_t ch) -> uint64_t { return has(ch) ? uint64_t(1) << 40 : 0; }, "that returns 2^40");
                    try_it([&](char32_t ch) -> double { return has(ch) ? 0.25 : 0; }, "that returns 0.25");
                    try_it([&](const char32_t& ch) { return has(ch); }, "of a reference");
                    try_it([&](uint32_t ch) { return has(ch); }, "of a uint32_t");
                    try_it([&](auto ch) { return sizeof ch == 4 && has(char32_t(ch)); }, "of anything");
                    struct Object
                    {
                        const u32string& in;
                        bool operator()(char32_t ch) const { return in.find(ch) != in.npos; }
                    };
                    try_it(Object{in}, "that is a const object");
                    try_it(Pred(has), "that is a std::function");
                }
            }
        }, 8);
    }
    {
        auto ks = pump_counts(T);
        vector<std::array<string, 3>> uvw;
        for (auto& v : vector<string>{"a", " ", "\u00E9", "a ", "\u20ACa", "\U0001F600"})
        {
            for (auto& a : vector<string>{"", "x", "\xFF"})
            {
                for (auto& b : vector<string>{"", "x", "\xFF", "\u00E9"})
                    uvw.push_back({a, v, b});
            }
        }
        vector<u32string> lists{U"", U"a ", U"x", U"a\u00E9 ", U"\u20ACa\U0001F600"};
        h.add("long-texts", fmt("u v^k w, 72 triples, %zu values of k up to %zu, 5 templates, 5 predicates; the predicate throws at the first, middle and last call or never", ks.size(), ks.back()),
              uvw.size() * ks.size(), [=](Ctx& c, uint64_t i)
        {
            auto& [a, v, b] = uvw[i % uvw.size()];
            size_t k = ks[i / uvw.size()];
            auto s = a + repeat(v, k) + b;
            for (int j = 0; j < TEMPLATES; ++j)
            {
                for (auto& in : lists)
                {
                    size_t off = j == FIND_FIRST ? 0 : s.size();
                    auto full = model(Template(j), s, off, in, 0);
                    size_t n = full.given.size();
                    for (size_t at : {size_t(0), size_t(1), n / 2, n})
                    {
                        if (at > n || (at && at == n / 2 && n < 4))
                            continue;
                        auto want = at ? model(Template(j), s, off, in, at) : full;
                        bool same = true;
                        auto got = real(c, Template(j), s, off, in, at, &same);
                        c.state();
                        MC_OK(c, got == want && same, "%s(%s %s^%zu %s, in %s), predicate throwing at call %zu: %zu calls, %s; expected %zu, %s", NAMES[j], show(a).c_str(), show(v).c_str(), k,
                              show(b).c_str(), show(u32string_view(in)).c_str(), at, got.given.size(), got.outcome.c_str(), want.given.size(), want.outcome.c_str());
                    }
                }
            }
        }, 4);
    }
    {
        StringSpace sp(vector<string>{"a", ",", ";", u(0x20AC)}, 0, T ? 6 : 5);
        h.add("token-finders", fmt("all texts of up to %d of {a , ; euro}; the finder throws at every subset of its first 8 calls; split_where with 8 settings, throwing at every call", T ? 6 : 5), sp.count(),
              [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "token finders that throw, on " + show(s); });
            for (unsigned mask = 0; mask < 256; ++mask)
                tokens(c, s, mask);
            for (size_t m : {size_t(0), size_t(1), size_t(2), SIZE_MAX})
            {
                for (bool ig : {false, true})
                    split_where_calls(c, s, {m, ig});
            }
        }, 4);
    }
    {
        StringSpace sp(vector<string>{"a", ",", ";", u(0x20AC)}, 0, T ? 8 : 7);
        h.add("stateful-finders", fmt("all texts of up to %d of {a , ; euro}, finders that keep in themselves which separator is next (14 sequences), iterators copied after every number of calls", T ? 8 : 7), sp.count(),
              [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "finders with a state, on " + show(s); });
            for (auto seps : {",", ",;", ";,", ",,;", ",;;", ";,,", ";;,", ",;,", ";,;", ",;;,", ";,,;", ",,;;", ",;,;", "a,;"})
                stateful(c, s, seps);
        }, 16);
    }
    {
        StringSpace sp(vector<string>{"a", ",", "\n", "\u00E9", "\xFF", "\xC3", "\xE2\x82", "\x80"}, 0, T ? 7 : 6);
        h.add("malformed-tokens", fmt("all texts of up to %d of {a , newline e-acute, bytes FF C3 E2 82 80}, 3 of the library's searches as finders, next() called again after it threw", T ? 7 : 6), sp.count(),
              [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            malformed_tokens(c, s);
        }, 64);
    }
    {
        StringSpace sp(us(U"a ,\u00E9\u20AC"), 0, T ? 5 : 4);
        h.add("calls-inside", fmt("all texts of up to %d of {a space , e-acute euro}, 5 templates, TokenIterator and split_where, whose predicate or finder makes each of %u groups of calls", T ? 5 : 4, INNER),
              sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            for (unsigned k = 0; k < INNER; ++k)
            {
                uint64_t alone[2] = {inner(k, 'a'), inner(k, U'\u00E9')};
                auto check = [&](char32_t ch)
                {
                    c.call();
                    int x = ch == 'a' ? 0 : 1;
                    MC_OK(c, inner(k, x ? U'\u00E9' : U'a') == alone[x], "calls of group %u give another result inside a predicate on %s", k, show(s).c_str());
                };
                for (int t = 0; t < TEMPLATES; ++t)
                {
                    for (u32string_view in : {U""sv, U"a "sv, U","sv, U"\u00E9\u20AC"sv})
                    {
                        size_t off = t == FIND_FIRST ? 0 : s.size();
                        auto want = model(Template(t), s, off, in, 0);
                        u32string given;
                        auto got = result(Template(t), s, off, [&](char32_t ch)
                        {
                            check(ch);
                            given.push_back(ch);
                            bool r = in.find(ch) != in.npos;
                            check('a');
                            return r;
                        });
                        c.state();
                        MC_OK(c, got == want.outcome && given == want.given, "%s(%s), predicate calling group %u: %s; expected %s", NAMES[t], show(s).c_str(), k, got.c_str(), want.outcome.c_str());
                    }
                }
                Script script{","};
                auto plain = split_where(s, script);
                auto inside = split_where(s, [&](string_view v)
                {
                    check('a');
                    auto r = find_first_of(v, U","sv).first;
                    check(U'\u00E9');
                    return r;
                });
                MC_OK(c, plain == inside, "split_where(%s), finder calling group %u: %s; expected %s", show(s).c_str(), k, show(inside).c_str(), show(plain).c_str());
            }
        }, 4);
    }
}
