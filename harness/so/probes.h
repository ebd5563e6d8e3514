#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

// Implemented in the shared object, together with the library.
extern "C"
{
    size_t ys_probe_count();
    const char* ys_probe_name(size_t i);
    void ys_probe_run(size_t i, std::string* out);
    size_t ys_text_count();
    const char* ys_text_name(size_t i);
    void ys_text_run(size_t i, const char* data, size_t size, std::string* out);
    // Functions of a set or list of code points that stays in one place while its content changes.
    void* ys_object_new();
    size_t ys_object_contents();
    void ys_object_fill(void* object, size_t content);
    size_t ys_object_count();
    const char* ys_object_name(size_t i);
    void ys_object_run(size_t i, const void* object, std::string* out);
    constexpr size_t YS_CODEPOINT_FUNCTIONS = 7;
    uint32_t ys_codepoint(size_t f, char32_t cp);
}
