// Guest-side models of library code that would otherwise be opaque native calls.  Compiled to bitcode and linked
// with the code under test, so that symbolic data flows through it.
#define BOOST_THREAD_SOURCE
#include <boost/thread/thread.hpp>
#include <boost/thread/once.hpp>
#include <string>
#include <map>
#include <wchar.h>
#include <errno.h>
#include <pthread.h>
#include "sx.h"

template class std::basic_string<char>;
template class std::basic_string<wchar_t>;

extern "C" {
int sx_thread_create(void* (*fn)(void*), void* arg);
void sx_thread_join(int id);

wchar_t* wcsncpy(wchar_t* d, const wchar_t* s, size_t n) {
    size_t i = 0;
    for (; i < n && s[i]; ++i) d[i] = s[i];
    for (; i < n; ++i) d[i] = 0;
    return d;
}
int wcsncmp(const wchar_t* a, const wchar_t* b, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
        if (!a[i]) return 0;
    }
    return 0;
}
int wcscmp(const wchar_t* a, const wchar_t* b) {
    for (size_t i = 0;; ++i) {
        if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
        if (!a[i]) return 0;
    }
}
int strcmp(const char* a, const char* b) {
    for (size_t i = 0;; ++i) {
        if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
        if (!a[i]) return 0;
    }
}
int strncmp(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
        if (!a[i]) return 0;
    }
    return 0;
}
static long sx_wcstol(const wchar_t* s, wchar_t** e, int base) {
    const wchar_t* p = s;
    while (*p == L' ' || (*p >= 9 && *p <= 13)) ++p;
    bool neg = false;
    if (*p == L'-') { neg = true; ++p; } else if (*p == L'+') ++p;
    if ((base == 0 || base == 16) && p[0] == L'0' && (p[1] == L'x' || p[1] == L'X')) { p += 2; base = 16; }
    else if (base == 0) base = p[0] == L'0' ? 8 : 10;
    unsigned long v = 0, lim = neg ? 0x8000000000000000ul : 0x7ffffffffffffffful;
    bool any = false, ovf = false;
    for (;; ++p) {
        int d;
        if (*p >= L'0' && *p <= L'9') d = *p - L'0';
        else if (*p >= L'a' && *p <= L'z') d = *p - L'a' + 10;
        else if (*p >= L'A' && *p <= L'Z') d = *p - L'A' + 10;
        else break;
        if (d >= base) break;
        any = true;
        if (v > (lim - d) / base) ovf = true;
        else v = v * base + d;
    }
    if (e) *e = (wchar_t*)(any ? p : s);
    if (ovf) v = lim;
    return neg ? -v : v;
}
long __isoc23_wcstol(const wchar_t* s, wchar_t** e, int b) { return sx_wcstol(s, e, b); }
long long __isoc23_wcstoll(const wchar_t* s, wchar_t** e, int b) { return sx_wcstol(s, e, b); }
// the process runs in the "C" locale: only ASCII letters have case / class
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
wint_t towlower(wint_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
wint_t towupper(wint_t c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
}

namespace boost {
namespace detail {
thread_data_base* get_current_thread_data() { return 0; }
thread_data_base::~thread_data_base() {}
}
static void* sxThreadMain(void* p) {
    boost::detail::thread_data_base* d = (boost::detail::thread_data_base*)p;
    d->run();
    d->done = true;
    return 0;
}
bool thread::start_thread_noexcept() {
    thread_info->self = thread_info;
    int id = sx_thread_create(&sxThreadMain, thread_info.get());
    thread_info->thread_handle = (pthread_t)(0x10000 + id * 0x1000);
    return true;
}
bool thread::join_noexcept() {
    if (!thread_info) return false;
    sx_thread_join((int)(((uint64_t)thread_info->thread_handle - 0x10000) / 0x1000));
    thread_info.reset();
    return true;
}
bool thread::do_try_join_until_noexcept(detail::internal_platform_timepoint const&, bool& res) {
    if (!thread_info) return false;
    sx_thread_join((int)(((uint64_t)thread_info->thread_handle - 0x10000) / 0x1000));
    thread_info.reset();
    res = true;
    return true;
}
bool thread::joinable() const BOOST_NOEXCEPT { return (bool)thread_info; }
void thread::detach() { thread_info.reset(); }
thread::native_handle_type thread::native_handle() { return thread_info ? thread_info->thread_handle : pthread_t(); }
namespace this_thread {
void interruption_point() {}
void yield() BOOST_NOEXCEPT { sx_yield("yield"); }
disable_interruption::disable_interruption() BOOST_NOEXCEPT : interruption_was_enabled(false) {}
disable_interruption::~disable_interruption() BOOST_NOEXCEPT {}
}
namespace thread_detail {
// cooperative scheduling: no preemption inside these, so a plain flag is enough
static std::map<void*, int>* onceState;
BOOST_THREAD_DECL bool enter_once_region(once_flag& flag) BOOST_NOEXCEPT {
    if (!onceState) onceState = new std::map<void*, int>;
    return (*onceState)[&flag] == 0;
}
BOOST_THREAD_DECL void commit_once_region(once_flag& flag) BOOST_NOEXCEPT { (*onceState)[&flag] = 2; *(volatile int*)&flag = 2; }
BOOST_THREAD_DECL void rollback_once_region(once_flag& flag) BOOST_NOEXCEPT {}
}
}
