// Every call of an item made in several settings: the results of the first
// setting are recorded, and those of the others compared with them.
#pragma once
#include "digest.hpp"

static vector<uint64_t> g_base;
static size_t g_pos;
static bool g_record;
static string g_setting;

template <typename F>
static void compared(Ctx& c, const char* what, string_view s, F f)
{
    c.call();
    c.note(what);
    uint64_t d;
    try
    {
        auto&& r = f();
        d = digest(r);
    }
    catch (const ystring::YstringException& e)
    {
        d = hash(string_view(e.what()));
    }
    if (g_record)
        g_base.push_back(d);
    else
    {
        MC_OK(c, g_pos < g_base.size() && g_base[g_pos] == d, "%s on %s: another result %s", what, show(s).c_str(), g_setting.c_str());
        ++g_pos;
    }
}

static void begin_setting(bool first, const string& name)
{
    if (first)
        g_base.clear();
    g_pos = 0;
    g_record = first;
    g_setting = name;
}

static void end_setting(Ctx& c)
{
    c.state();
    MC_OK(c, g_record || g_pos == g_base.size(), "other calls %s", g_setting.c_str());
    if (g_record)
    {
        uint64_t h = 0;
        for (auto d : g_base)
            h = mix(h, d);
        c.outcome(h);
    }
}

#define CALL(in, expr) compared((in).c, #expr, (in).s, [&]() -> decltype(auto) { return (expr); })
#include "all_calls.hpp"
