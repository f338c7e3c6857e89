// Shared by the concrete searchers.  A searcher drives the real code with generated operation
// sequences, compares it with a reference model and prints "FAIL <what>" plus the sequence when they differ.
#ifndef COMMON_H
#define COMMON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <math.h>
#include "nkcommon.h"
#include "nkx.h"
static uint64_t rs_ = 88172645463325252ull;
static inline void rseed(uint64_t s) { rs_ = 88172645463325252ull ^ (s * 0x9E3779B97F4A7C15ull); if(!rs_) rs_ = 1; }
static inline uint32_t rnd(void) { rs_ ^= rs_ << 13; rs_ ^= rs_ >> 7; rs_ ^= rs_ << 17; return (uint32_t)(rs_ >> 16); }
static inline uint32_t rndn(uint32_t n) { return n ? rnd() % n : 0; }
static double now_(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double deadline_; static uint64_t cases_, ops_; static uint64_t seed_; static uint64_t only_ = ~0ull;
static char *trace_; static size_t trace_n, trace_cap;
static void tr(const char *f, ...) {
    va_list a; char b[4096]; int n; va_start(a, f); n = vsnprintf(b, sizeof b, f, a); va_end(a);
    if(n > (int)sizeof b - 1) n = sizeof b - 1;
    if(trace_n + n + 1 > trace_cap) { trace_cap = (trace_n + n + 1) * 2; trace_ = (char *)realloc(trace_, trace_cap); }
    memcpy(trace_ + trace_n, b, n); trace_n += n; trace_[trace_n] = 0; ops_++;
}
static void trace_reset(void) { trace_n = 0; if(trace_) trace_[0] = 0; }
static void dump_trace(void) { printf("case seed %llu\n%s\n", (unsigned long long)cases_, trace_ ? trace_ : ""); fflush(stdout); }
static void fail_(const char *file, int line, const char *f, ...) {
    va_list a; printf("FAIL %s:%d ", strrchr(file, '/') ? strrchr(file, '/') + 1 : file, line); va_start(a, f); vprintf(f, a); va_end(a); printf("\n"); dump_trace(); _exit(1);
}
#define FAIL(...) fail_(__FILE__, __LINE__, __VA_ARGS__)
#define CHECK(c, ...) do { if(!(c)) FAIL("(" #c ") " __VA_ARGS__); } while(0)
static void on_death(int sig) { printf("FAIL fatal signal %d\n", sig); dump_trace(); _exit(1); }
void __asan_on_error(void) { printf("FAIL memory error (address sanitizer)\n"); dump_trace(); }
// host allocator with live-block bookkeeping and injected failures
static long fail_after_ = -1; static uint64_t live_blocks_, live_bytes_, asked_, refused_;
static void *h_malloc(nkuint32_t n, void *u) {
    char *p; (void)u; asked_++; if(fail_after_ == 0) { refused_++; return NULL; } if(fail_after_ > 0) fail_after_--;
    if(n > 0x20000000u) return NULL;
    p = (char *)malloc(n); if(!p) return NULL; memset(p, 0xA5, n); live_blocks_++; return p;
}
static void h_free(void *p, void *u) { (void)u; if(p) live_blocks_--; free(p); }
static struct NKVM *new_vm(void) {
    struct NKVMCreateParams p; memset(&p, 0, sizeof p); p.mallocReplacement = h_malloc; p.freeReplacement = h_free;
    return nkxVmCreateEx(&p);
}
static void one_case(uint64_t n);
#ifdef EXHAUSTIVE
static void exhaustive(void);
#endif
int main(int c, char **v) {
    double secs = c > 2 ? atof(v[2]) : 10; seed_ = c > 1 ? strtoull(v[1], 0, 10) : 1;
    if(c > 3) only_ = strtoull(v[3], 0, 10);
    signal(SIGABRT, on_death); signal(SIGFPE, on_death); signal(SIGILL, on_death); signal(SIGALRM, on_death);
    deadline_ = now_() + secs;
    if(only_ != ~0ull) { cases_ = only_; rseed(only_); one_case(only_); printf("OK case %llu\n", (unsigned long long)only_); return 0; }
#ifdef EXHAUSTIVE
    exhaustive();
#endif
    cases_ = seed_ * 1000000ull;
    uint64_t k = 0;
    while(now_() < deadline_) { trace_reset(); rseed(cases_); fail_after_ = -1; alarm(60); one_case(cases_); cases_++; k++; }
    printf("OK cases=%llu ops=%llu\n", (unsigned long long)k, (unsigned long long)ops_);
    return 0;
}
// run code that may fail catastrophically: 1 when it completed, 0 when it was abandoned
#define GUARD(vm, code) ({ jmp_buf jb_; jmp_buf *last_ = (vm)->catastrophicFailureJmpBuf; volatile int ok_ = 0; \
    (vm)->catastrophicFailureJmpBuf = &jb_; if(!setjmp(jb_)) { code; ok_ = 1; } (vm)->catastrophicFailureJmpBuf = last_; ok_; })
#endif
