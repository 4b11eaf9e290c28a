// Counts what is allocated: malloc and its kin are replaced (glibc only, no sanitizer).
#pragma once

#include <dirent.h>
#include <malloc.h>

#include <cerrno>
#include <cstddef>

#include "pbt.hpp"

namespace heap {
inline long blocks = 0;
inline long bytes = 0;
inline unsigned long calls = 0;  // of functions that allocate
inline void* got(void* p) {
    if (p) {
        ++blocks;
        ++calls;
        bytes += static_cast<long>(malloc_usable_size(p));
    }
    return p;
}
inline void lost(void* p) {
    if (p) {
        --blocks;
        bytes -= static_cast<long>(malloc_usable_size(p));
    }
}
}  // namespace heap

extern "C" {
void* __libc_malloc(std::size_t);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
void* __libc_memalign(std::size_t, std::size_t);
void __libc_free(void*);
void* malloc(std::size_t n) { return heap::got(__libc_malloc(n)); }
void* calloc(std::size_t n, std::size_t m) { return heap::got(__libc_calloc(n, m)); }
void* realloc(void* p, std::size_t n) {
    heap::lost(p);
    return heap::got(__libc_realloc(p, n));
}
void* memalign(std::size_t a, std::size_t n) { return heap::got(__libc_memalign(a, n)); }
void* aligned_alloc(std::size_t a, std::size_t n) { return heap::got(__libc_memalign(a, n)); }
int posix_memalign(void** p, std::size_t a, std::size_t n) {
    *p = heap::got(__libc_memalign(a, n));
    return *p ? 0 : ENOMEM;
}
void free(void* p) {
    heap::lost(p);
    __libc_free(p);
}
}

namespace heap {

inline long open_files() {
    long n = 0;
    if (DIR* d = opendir("/proc/self/fd")) {
        while (readdir(d)) {
            ++n;
        }
        closedir(d);
    }
    return n;
}

struct Growth {
    unsigned long allocated = 0;  // calls in the first round
    std::string text;             // empty if nothing grows without end
};

// Does the same again and again, and looks at what is held after 2^k rounds: something that is set up once, or a buffer
// of bounded size, shows at the beginning only; what grows at each of the last doublings is never given back.
template <class F>
Growth growth(F f, int doublings) {
    Growth g;
    auto before = calls;
    f(0);
    g.allocated = calls - before;
    std::vector<long> held, files;
    held.reserve(32);
    files.reserve(32);
    long round = 1;
    for (int k = 1; k <= doublings; ++k) {
        for (; round < 1l << k; ++round) {
            f(round);
        }
        held.push_back(bytes);
        files.push_back(open_files());
    }
    auto grows = [&](const std::vector<long>& v) {
        for (std::size_t i = v.size() - 3; i < v.size(); ++i) {
            if (v[i] <= v[i - 1]) {
                return false;
            }
        }
        return true;
    };
    auto list = [](const std::vector<long>& v) {
        std::string r;
        for (auto x : v) {
            r += " " + std::to_string(x);
        }
        return r;
    };
    if (grows(held)) {
        g.text = "bytes held after 2, 4, 8 ... rounds:" + list(held);
    } else if (grows(files)) {
        g.text = "files open after 2, 4, 8 ... rounds:" + list(files);
    }
    return g;
}

}  // namespace heap
