// C14: TokenIterator and split_where, as a state machine.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"
#include "Ystring/TokenIterator.hpp"

using namespace mc;
using namespace ystring;

using Finder = std::function<Subrange(string_view)>;

struct NamedFinder
{
    string name;
    Finder find;
};

static vector<NamedFinder> finders()
{
    return {
        {"byte ','", [](string_view s) { auto p = s.find(','); return p == string_view::npos ? Subrange() : Subrange(p, 1); }},
        {"run of ','", [](string_view s)
         {
             auto p = s.find(',');
             if (p == string_view::npos)
                 return Subrange(s.size(), 0);
             auto e = s.find_first_not_of(',', p);
             return Subrange(p, (e == string_view::npos ? s.size() : e) - p);
         }},
        {"'ab' or ','", [](string_view s)
         {
             for (size_t i = 0; i < s.size(); ++i)
             {
                 if (s[i] == ',')
                     return Subrange(i, 1);
                 if (s.substr(i, 2) == "ab")
                     return Subrange(i, 2);
             }
             return Subrange(0, 0);
         }},
        {"never", [](string_view) { return Subrange(); }},
        {"never, found at 0 with no length", [](string_view) { return Subrange(0, 0); }},
        {"whole rest if it starts with ','", [](string_view s) { return !s.empty() && s[0] == ',' ? Subrange(0, s.size()) : Subrange(s.size(), 0); }},
        {"every first byte", [](string_view s) { return s.empty() ? Subrange(0, 0) : Subrange(0, 1); }},
        {"find_first_of(',' euro)", [](string_view s) { return ref::valid(s) ? find_first_of(s, U",\u20AC"sv).first : Subrange(); }},
    };
}

// The model: position of the current piece in str and what the finder said.
struct Model
{
    string_view str;
    const Finder* f;
    size_t at = 0;      // start of the current part
    size_t tb = 0, te = 0; // current token (absolute)
    int state = 0;      // 0 not started, 1 on a separator, 2 on the final part, 3 finished

    bool next()
    {
        if (state >= 2)
        {
            state = 3;
            return false;
        }
        if (state == 1)
            at = te;
        auto r = (*f)(str.substr(at));
        if (r.length)
        {
            tb = at + r.offset;
            te = tb + r.length;
            state = 1;
        }
        else
        {
            tb = te = str.size();
            state = 2;
        }
        return true;
    }
};

template <typename It>
static void observe(Ctx& c, const It& it, const Model& m, const string& hist)
{
    c.state();
    for (int twice = 0; twice < 2; ++twice)
    {
        MC_EQ(c, bool(it), m.state == 1, "bool after %s", hist.c_str());
        if (m.state == 1)
        {
            auto part = it.part(), tok = it.token(), rem = it.remainder();
            c.call(3);
            auto wp = m.str.substr(m.at, m.tb - m.at), wt = m.str.substr(m.tb, m.te - m.tb), wr = m.str.substr(m.te);
            MC_OK(c, part == wp && (wp.empty() || part.data() == wp.data()), "part() after %s: got %s, expected %s", hist.c_str(), show(part).c_str(), show(wp).c_str());
            MC_OK(c, tok == wt && tok.data() == wt.data(), "token() after %s: got %s, expected %s", hist.c_str(), show(tok).c_str(), show(wt).c_str());
            MC_OK(c, rem == wr && (wr.empty() || rem.data() == wr.data()), "remainder() after %s: got %s, expected %s", hist.c_str(), show(rem).c_str(), show(wr).c_str());
        }
        else if (m.state >= 2)
        {
            auto wp = m.str.substr(m.at);
            auto part = it.part();
            c.call(3);
            MC_OK(c, part == wp && (wp.empty() || part.data() == wp.data()), "part() after %s: got %s, expected %s", hist.c_str(), show(part).c_str(), show(wp).c_str());
            MC_OK(c, it.token().empty(), "token() after %s: got %s, expected nothing", hist.c_str(), show(it.token()).c_str());
            MC_OK(c, it.remainder().empty(), "remainder() after %s: got %s, expected nothing", hist.c_str(), show(it.remainder()).c_str());
        }
        else
        {
            auto part = it.part(), tok = it.token(), rem = it.remainder();
            c.call(3);
            MC_OK(c, string(part) + string(tok) + string(rem) == m.str, "part, token and remainder before the first next(): %s %s %s do not make up %s", show(part).c_str(),
                  show(tok).c_str(), show(rem).c_str(), show(m.str).c_str());
        }
    }
    c.outcome(uint64_t(m.state) + m.at * 5 + m.tb * 101 + m.te * 4001);
}

// Runs the iterator to its end, observing (or not) after each step by mask.
static void walk(Ctx& c, string_view s, const NamedFinder& f, unsigned mask, int extra)
{
    TokenIterator<Finder> it(s, f.find);
    Model m{s, &f.find};
    string hist = "TokenIterator(" + show(s) + ", " + f.name + ")";
    string consumed;
    unsigned step = 0;
    if (mask & 1)
        observe(c, it, m, hist);
    int after = 0;
    while (after < extra)
    {
        ++step;
        bool w = m.next();
        MC_EQ(c, it.next(), w, "next() number %u of %s", step, hist.c_str());
        if (!w)
            ++after;
        if (step >= 31 || (mask >> step & 1) || m.state == 3)
        {
            observe(c, it, m, fmt("%u calls of next() of %s", step, hist.c_str()));
            if (w)
            {
                auto sum = consumed + string(it.part()) + string(it.token()) + string(it.remainder());
                MC_OK(c, sum == s, "%u calls of next() of %s: the pieces make up %s", step, hist.c_str(), show(sum).c_str());
            }
        }
        if (w)
        {
            consumed += s.substr(m.at, m.te - m.at);
            // A copy goes on from the same state.
            auto copy = it;
            Model mm = m;
            bool cw = mm.next();
            MC_EQ(c, copy.next(), cw, "next() of a copy after %u calls of %s", step, hist.c_str());
            observe(c, copy, mm, fmt("next() of a copy after %u calls of %s", step, hist.c_str()));
        }
        if (step > s.size() + 10)
            c.fail("next() of " + hist + " does not end");
    }
}

static void splits(Ctx& c, string_view s, const NamedFinder& f)
{
    for (auto p : {SplitParams{}, IGNORE_EMPTY, SplitParams{0, false}, SplitParams{1, false}, SplitParams{2, true}, SplitParams{1, true}})
    {
        vector<string_view> want;
        Model m{s, &f.find};
        while (want.size() < p.max_splits && m.next())
        {
            auto part = s.substr(m.at, (m.state == 1 ? m.tb : s.size()) - m.at);
            if (!p.ignore_empty || !part.empty())
                want.push_back(part);
        }
        if (m.state <= 1)
        {
            auto rest = s.substr(m.state == 1 ? m.te : 0);
            if (!p.ignore_empty || !rest.empty())
                want.push_back(rest);
        }
        auto got = split_where(s, f.find, p);
        MC_EQ(c, got, want, "split_where(%s, %s, {%s, %s})", show(s).c_str(), f.name.c_str(), show(p.max_splits).c_str(), show(p.ignore_empty).c_str());
        for (size_t k = 0; k < got.size(); ++k)
            MC_OK(c, got[k].empty() || got[k].data() == want[k].data(), "split_where(%s, %s): part %zu is not the part of the argument", show(s).c_str(), f.name.c_str(), k);
    }
}

void mc::build(Harness& h)
{
    bool T = h.thorough;
    {
        StringSpace sp(vector<string>{"a", "b", ",", u(0x20AC)}, 0, T ? 7 : 6);
        auto fs = finders();
        h.add("call-sequences", fmt("all texts of up to %d of {a b , euro}, 8 finders, every subset of steps at which the observers are called (first 6 steps), 3 calls of next() after the end", T ? 7 : 6),
              sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            c.sample([&] { return "all call sequences on " + show(s); });
            for (auto& f : fs)
            {
                unsigned steps = 0;
                Model m{s, &f.find};
                while (m.next())
                    ++steps;
                unsigned bits = std::min(steps + 1, 6u);
                for (unsigned mask = 0; mask < (1u << bits); ++mask)
                    walk(c, s, f, mask | (mask == (1u << bits) - 1 ? ~63u : 0), 3);
                splits(c, s, f);
            }
        }, 8);
    }
    {
        StringSpace sp(bytes({'a', ','}), 7, T ? 14 : 12);
        auto fs = finders();
        h.add("long-texts", fmt("all texts of 7 to %d of {a ,}, 8 finders, observed at every step", T ? 14 : 12), sp.count(), [=](Ctx& c, uint64_t i)
        {
            auto s = sp.get(i);
            for (auto& f : fs)
            {
                walk(c, s, f, ~0u, 2);
                splits(c, s, f);
            }
        }, 8);
    }
    h.add("all-codepoints", "every code point as separator found by find_first_of and find_first, and as text", 0x110000 / 64, [](Ctx& c, uint64_t blk)
    {
        for (char32_t cp = char32_t(blk * 64); cp < (blk + 1) * 64; ++cp)
        {
            auto e = u(cp);
            NamedFinder f{show(cp), [cp](string_view s) { return find_first_of(s, u32string{cp}).first; }};
            NamedFinder g{show(cp), [e](string_view s) { return find_first(s, e); }};
            walk(c, "a" + e + "b" + e, f, ~0u, 2);
            walk(c, e + e + "b", g, ~0u, 2);
            c.sample([&] { return "tokens of a string with separator " + show(cp); });
        }
    }, 8);
    {
        auto ks = pump_counts(T);
        auto fs = finders();
        vector<std::array<string, 3>> uvw;
        for (auto& v : vector<string>{",", "a,", "ab", ",,a"})
        {
            for (auto& a : vector<string>{"", "a", ","})
            {
                for (auto& b : vector<string>{"", "a", ","})
                    uvw.push_back({a, v, b});
            }
        }
        h.add("pumped", fmt("u v^k w with k in %zu values up to 1025, 8 finders", ks.size()), uvw.size() * ks.size(), [=](Ctx& c, uint64_t i)
        {
            auto& [a, v, b] = uvw[i % uvw.size()];
            size_t k = ks[i / uvw.size()];
            if (k > 1025)
                return;
            auto s = a + repeat(v, k) + b;
            auto& f = fs[k < 70 ? i % 8 : i % 3];
            if (k > 70 && i % 7)
                return;
            walk(c, s, f, 0xFFFF, 2);
            if (k < 280)
                splits(c, s, f);
        }, 4);
    }
}
