// Results of calls as numbers.
#pragma once
#include <optional>
#include "common.hpp"

using namespace mc;

// What a call gave, as a number.
static uint64_t mix(uint64_t h, uint64_t v) { return (h ^ v) * 0x9E3779B97F4A7C15ull + (h >> 29); }
static uint64_t digest(bool b) { return mix(1, b); }
static uint64_t digest(size_t n) { return mix(2, n); }
static uint64_t digest(char32_t n) { return mix(4, n); }
static uint64_t digest(int32_t n) { return mix(3, uint32_t(n)); }
static uint64_t digest(string_view s) { return hash(s) + 5; }
static uint64_t digest(const string& s) { return hash(s) + 6; }
static uint64_t digest(const u32string& s) { return hash(string_view(reinterpret_cast<const char*>(s.data()), s.size() * 4)) + 7; }
static uint64_t digest(const ystring::Subrange& r) { return mix(mix(8, r.offset), r.length); }
static uint64_t digest(const std::pair<ystring::Subrange, char32_t>& p) { return mix(digest(p.first), p.second); }
static uint64_t digest(const vector<string_view>& v)
{
    uint64_t h = 9;
    for (auto& p : v)
        h = mix(mix(h, digest(p)), p.data() ? uint64_t(p.data() - v[0].data()) : UINT64_MAX);
    return h;
}
static uint64_t digest(const std::optional<char32_t>& c) { return c ? mix(10, *c) : 11; }
