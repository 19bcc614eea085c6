// Counts heap operations (malloc family and operator new, also from inside Eigen
// and libstdc++) while armed, and keeps the call stack of the first one.
// Only for builds without a sanitizer: the executable's malloc replaces libc's.
#pragma once
#include <cerrno>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <string>
#include <malloc.h>
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); void __libc_free(void*); }
namespace allocmon {
inline thread_local bool armed = false;
inline thread_local long allocs = 0, frees = 0, bytes = 0, failat = -1;
inline thread_local void* stack[24]; inline thread_local int depth = 0;
inline bool hit(size_t n) {      // -> this allocation has to fail
    if (!armed) return false;
    armed = false; if (!allocs++) depth = backtrace(stack, 24);
    bytes += n; bool f = failat >= 0 && allocs - 1 == failat; armed = true; return f;
}
inline void gone(void* p) { if (armed && p) frees++; }
struct Watch {                   // arms the monitor for a scope
    Watch(long fail = -1) { allocs = frees = bytes = 0; depth = 0; failat = fail; armed = true; }
    ~Watch() { armed = false; failat = -1; }
};
inline void init() { void* b[4]; backtrace(b, 4); }       // backtrace() itself allocates when first used
inline std::string where() {     // "address address ..." inside the executable, for addr2line
    std::string o;
    for (int i = 1; i < depth && i < 14; i++) { Dl_info d; char b[40]; if (dladdr(stack[i], &d)) { bool own = !strstr(d.dli_fname, ".so"); snprintf(b, sizeof b, own ? "%#lx " : "so ", (unsigned long)((char*)stack[i] - (char*)d.dli_fbase) - 1); o += b; } }
    return o;
}
}
extern "C" {
void* malloc(size_t n) { if (allocmon::hit(n)) { errno = ENOMEM; return nullptr; } return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { if (allocmon::hit(a * b)) { errno = ENOMEM; return nullptr; } return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { if (allocmon::hit(n)) { errno = ENOMEM; return nullptr; } return __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { if (allocmon::hit(n)) { errno = ENOMEM; return nullptr; } return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { if (allocmon::hit(n)) return ENOMEM; *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
void free(void* p) { allocmon::gone(p); __libc_free(p); }
}
