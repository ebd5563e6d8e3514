// The library in one build configuration: every function on given arguments,
// results as numbers. Built once per configuration; nothing else is exported.
#include "../digest.hpp"

struct Sink
{
    uint64_t* out;
    const char** names;
    size_t size, capacity;
};

static Sink g_out;

template <typename F>
static void recorded(Ctx& c, const char* what, F f)
{
    uint64_t d;
    try
    {
        auto&& r = f();
        d = digest(r);
    }
    catch (const ystring::YstringException& e)
    {
        d = 12;
    }
    catch (const mc::Failure&)
    {
        throw;
    }
    catch (const std::exception&)
    {
        d = 13;
    }
    if (g_out.size < g_out.capacity)
    {
        g_out.out[g_out.size] = d;
        g_out.names[g_out.size] = what;
    }
    ++g_out.size;
}

#define CALL(in, expr) recorded((in).c, #expr, [&]() -> decltype(auto) { return (expr); })
#include "../all_calls.hpp"

void mc::build(Harness&) {}

extern "C" __attribute__((visibility("default")))
size_t ys_configured(int kind, const char* s, size_t ns, const char* t, size_t nt, uint64_t from, uint64_t to, uint64_t* out, const char** names, size_t capacity)
{
    static Shared shared;
    g_shared = &shared;
    g_out = {out, names, 0, capacity};
    Ctx c;
    try
    {
        string_view a(s, ns), b(t, nt);
        if (kind == 0)
            one_string({c, a});
        else if (kind == 1)
            two_strings(c, a, b);
        else if (kind == 2)
            indexed(c, a);
        else if (kind == 3)
        {
            for (auto v = from; v < to; ++v)
                codepoint(c, char32_t(v));
        }
        else if (kind == 4)
        {
            In in{c, a};
            CALL(in, unescape(string(a)));
            CALL(in, has_escaped_chars(a));
            CALL(in, find_first_escaped_char(a));
            CALL(in, find_first_escapable_char(a));
            CALL(in, escape_json(a));
            auto v = a;
            bool e = false;
            for (size_t k = 0; k <= a.size(); ++k)
            {
                size_t before = v.size();
                CALL(in, unescape_next(v, &e));
                CALL(in, v.size() * 2 + size_t(e));
                if (v.size() == before)
                    break;
            }
        }
        else if (kind == 5)
        {
            // Cursors over every position, both ways.
            In in{c, a};
            for (size_t k = 0; k <= a.size(); ++k)
            {
                auto b = a.data(), e = b + a.size(), p = b + k;
                char32_t ch = 0;
                CALL(in, decode_next(p, e));
                CALL(in, size_t(p - b));
                p = b + k;
                CALL(in, decode_prev(b, p));
                CALL(in, size_t(p - b));
                p = b + k;
                CALL(in, skip_next(p, e));
                CALL(in, size_t(p - b));
                p = b + k;
                CALL(in, skip_prev(b, p));
                CALL(in, size_t(p - b));
                p = b + k;
                CALL(in, safe_decode_next(p, e, ch) ? ch : char32_t(0));
                CALL(in, size_t(p - b));
                p = b + k;
                CALL(in, safe_decode_prev(b, p, ch) ? ch : char32_t(0));
                CALL(in, size_t(p - b));
                auto v = a.substr(k);
                CALL(in, pop_utf8_codepoint(v));
                CALL(in, pop_last_utf8_codepoint(v));
                CALL(in, remove_utf8_codepoint(v));
                CALL(in, remove_last_utf8_codepoint(v));
                CALL(in, v.size());
            }
        }
    }
    catch (const mc::Failure& f)
    {
        static char text[2000];
        snprintf(text, sizeof text, "%s", f.message.c_str());
        if (capacity)
            names[0] = text;
        return SIZE_MAX;
    }
    return g_out.size;
}
