// The writable memory of the shared object that holds the library.
#pragma once
#include <link.h>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

struct Image
{
    std::vector<std::pair<uintptr_t, uintptr_t>> rw; // without relocated read-only data
    uintptr_t tls = 0;
    size_t tls_size = 0;
    bool found = false;

    static Image find(const char* name = "libys.so")
    {
        struct Arg
        {
            Image im;
            const char* name;
        } arg{{}, name};
        dl_iterate_phdr([](dl_phdr_info* i, size_t, void* p) -> int
        {
            auto& a = *static_cast<Arg*>(p);
            if (!i->dlpi_name || !strstr(i->dlpi_name, a.name))
                return 0;
            a.im.found = true;
            uintptr_t ro_b = 0, ro_e = 0;
            for (int k = 0; k < i->dlpi_phnum; ++k)
            {
                auto& h = i->dlpi_phdr[k];
                if (h.p_type == PT_GNU_RELRO)
                {
                    ro_b = i->dlpi_addr + h.p_vaddr;
                    ro_e = ro_b + h.p_memsz;
                    // RELRO ends on a page boundary at run time
                    ro_e = (ro_e + 4095) & ~uintptr_t(4095);
                }
            }
            for (int k = 0; k < i->dlpi_phnum; ++k)
            {
                auto& h = i->dlpi_phdr[k];
                if (h.p_type == PT_LOAD && (h.p_flags & PF_W))
                {
                    uintptr_t b = i->dlpi_addr + h.p_vaddr, e = b + h.p_memsz;
                    if (ro_b <= b && b < ro_e)
                        b = ro_e < e ? ro_e : e;
                    if (b < e)
                        a.im.rw.push_back({b, e});
                }
                if (h.p_type == PT_TLS && i->dlpi_tls_data)
                {
                    a.im.tls = uintptr_t(i->dlpi_tls_data);
                    a.im.tls_size = h.p_memsz;
                }
            }
            return 1;
        }, &arg);
        return arg.im;
    }

    size_t bytes() const
    {
        size_t n = tls_size;
        for (auto& [b, e] : rw)
            n += e - b;
        return n;
    }

    bool contains(uintptr_t p) const
    {
        for (auto& [b, e] : rw)
        {
            if (p >= b && p < e)
                return true;
        }
        return false;
    }

    uint64_t hash() const
    {
        uint64_t h = 0xcbf29ce484222325ULL;
        auto add = [&](uintptr_t b, uintptr_t e)
        {
            for (; b < e; ++b)
                h = (h ^ *reinterpret_cast<const volatile uint8_t*>(b)) * 0x100000001b3ULL;
        };
        for (auto& [b, e] : rw)
            add(b, e);
        add(tls, tls + tls_size);
        return h;
    }
};
