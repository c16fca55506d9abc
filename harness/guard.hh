// A copy of some bytes that ends exactly at an unmapped page: reading past the end faults.
#pragma once
#include <cstring>
#include <string>
#include <sys/mman.h>
#include <vector>

struct GuardBuf
{
    char *base = nullptr;
    size_t total = 0;
    char *data = nullptr;
    size_t size = 0;
    GuardBuf(const void *p, size_t n)
        : size(n)
    {
        size_t pages = (n + 4095) / 4096 + 1;
        total = (pages + 1) * 4096;
        base = (char *)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        data = base + pages * 4096 - n;
        memset(base, 'G', pages * 4096); // never a terminator by accident
        memcpy(data, p, n);
        mprotect(base + pages * 4096, 4096, PROT_NONE);
    }
    explicit GuardBuf(const std::string &s)
        : GuardBuf(s.data(), s.size())
    {
    }
    ~GuardBuf() { munmap(base, total); }
    GuardBuf(const GuardBuf &) = delete;
    std::string_view view() const { return {data, size}; }
};
