/* Native replay: runs one harness entry of the real compiled code with the solver's values.
   usage: loader LIB.so ENTRY VALUES   (VALUES: one unsigned decimal per line, in creation order)
   exit 0 = path completed, 42 = property violated (VIOL id), 77 = assumption not met, signals = crash. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <ucontext.h>
static uint64_t *vals; static size_t nvals, pos;
static uint64_t next(uint64_t lim) {
    uint64_t v = pos < nvals ? vals[pos] : 0;
    if (pos >= nvals) { printf("EXTRA-INPUT\n"); }
    pos++;
    if (lim && v >= lim) { printf("BAD-PICK\n"); fflush(stdout); _exit(76); }
    return v;
}
uint64_t sx_sym(uint64_t w, const char *p, size_t n) { (void)p; (void)n; uint64_t v = next(0); return w >= 64 ? v : v & ((1ull << w) - 1); }
uint64_t sx_pick(uint64_t n, const char *p, size_t l) { (void)p; (void)l; return next(n); }
void sx_assume(bool c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _exit(77); } }
void sx_fail(const char *p, size_t n) { printf("VIOL %.*s\n", (int)n, p); fflush(stdout); _exit(42); }
void sx_assert(bool c, const char *p, size_t n) { if (!c) sx_fail(p, n); }
void sx_cover(const char *p, size_t n) { printf("EV %.*s\n", (int)n, p); }
uint64_t sx_conc(uint64_t v) { return v; }
void sx_note(const char *p, size_t n, uint64_t v) { printf("EV %.*s=%llu\n", (int)n, p, (unsigned long long)v); }
/* threads are coroutines: a switch happens exactly where the recorded schedule says */
static ucontext_t th[16]; static int nth = 1, cur;
uint64_t sx_spawn(void (*f)(void *), void *a) {
    int t = nth++; if (t >= 16) _exit(76);
    getcontext(&th[t]); th[t].uc_stack.ss_size = 8 << 20; th[t].uc_stack.ss_sp = malloc(8 << 20); th[t].uc_link = 0;
    makecontext(&th[t], (void (*)(void))f, 1, a);
    return t;
}
void sx_switch(uint64_t t) { int me = cur; if ((int)t == me) return; cur = t; swapcontext(&th[me], &th[t]); }
void sx_end(void) { printf("END\n"); fflush(stdout); _exit(0); }
int main(int c, char **v) {
    if (c < 4) return 2;
    FILE *f = fopen(v[3], "r"); if (!f) return 2;
    vals = malloc(8 << 16);
    unsigned long long x; while (nvals < (1 << 16) && fscanf(f, "%llu", &x) == 1) vals[nvals++] = x;
    fclose(f);
    void *h = dlopen(v[1], RTLD_NOW | RTLD_DEEPBIND);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    void (*e)(void) = (void (*)(void))dlsym(h, v[2]);
    if (!e) { fprintf(stderr, "no entry\n"); return 3; }
    e();
    printf("END\n"); fflush(stdout); _exit(0);
}
