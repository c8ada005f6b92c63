// Native replay runtime: the harness API over concrete values. Links against the unmodified,
// uninstrumented build (with AddressSanitizer); replays one counterexample.
//   program --replay FILE [-o key=value ...]      FILE: one integer per line, '#' comments
// exit 0: nothing failed, 1: a property assertion failed (printed), 3: outside the assumptions
#include "rt.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
struct E { __int128 v; };
static std::deque<E> pool;
static E *mk(__int128 v) { pool.push_back({v}); return &pool.back(); }
static std::vector<long> in; static size_t pos; static std::map<std::string, std::string> opts;
static __int128 fdiv(__int128 a, __int128 b) { __int128 q = a / b; if (a % b && ((a < 0) != (b < 0))) q--; return q; }
extern "C" {
int symx_native() { return 1; }
long symx_int(const char *name, long lo, long hi, long init) {
  long v = init; if (v < lo) v = lo; if (v > hi) v = hi;
  if (pos < in.size()) v = in[pos]; pos++;
  if (v < lo || v > hi) v = lo;
  fprintf(stderr, "  input %s = %ld\n", name, v); return v;
}
void __sym_thread() {}
int __sym_busy() { return 0; }
__attribute__((weak)) void __sym_race_load(void *, int) {}
__attribute__((weak)) void __sym_race_store(void *, int) {}
__attribute__((weak)) void __sym_race_range(void *, uint64_t, int) {}
__attribute__((weak)) void __sym_race_atomic(void *, int, int, int) {}
long symx_choice(const char *name, long n) { return symx_int(name, 0, n - 1, 0); }
void symx_mark_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) { uint8_t *q = (uint8_t *)p + i; *q = (uint8_t)symx_int(name, -128, 127, (int8_t)*q); } }
SymE *symx_of(long v) { return mk(v); }
SymE *symx_const(long v) { return mk(v); }
SymE *symx_add(SymE *a, SymE *b) { return mk(a->v + b->v); }
SymE *symx_sub(SymE *a, SymE *b) { return mk(a->v - b->v); }
SymE *symx_mulc(SymE *a, long k) { return mk(a->v * k); }
SymE *symx_div(SymE *a, long k) { return mk(fdiv(a->v, k)); }
SymE *symx_mod(SymE *a, long k) { return mk(a->v - k * fdiv(a->v, k)); }
SymE *symx_le(SymE *a, SymE *b) { return mk(a->v <= b->v); }
SymE *symx_eq(SymE *a, SymE *b) { return mk(a->v == b->v); }
SymE *symx_and(SymE *a, SymE *b) { return mk(a->v && b->v); }
SymE *symx_or(SymE *a, SymE *b) { return mk(a->v || b->v); }
SymE *symx_not(SymE *a) { return mk(!a->v); }
SymE *symx_ite(SymE *c, SymE *a, SymE *b) { return c->v ? a : b; }
SymE *symx_bool(int b) { return mk(b != 0); }
long symx_eval(SymE *e) { return (long)e->v; }
int symx_is_const(SymE *) { return 1; }
const char *symx_show(SymE *e) { static std::string s[4]; static int i; auto &r = s[i++ & 3]; r = std::to_string((long)e->v); return r.c_str(); }
long symx_value(SymE *e) { return (long)e->v; }
long symx_fork(SymE *e) { return e->v != 0; }
void symx_done() { fflush(nullptr); _exit(0); }
void symx_assume(SymE *c) { if (!c->v) { fprintf(stderr, "OUTSIDE-ASSUMPTIONS\n"); fflush(nullptr); _exit(3); } }
void symx_fail(const char *l, const char *d) { printf("CHECK FAILED: %s\n%s\n", l, d ? d : ""); fflush(nullptr); _exit(1); }
void symx_check(SymE *c, const char *l) { if (!c->v) symx_fail(l, ""); }
void symx_reach(const char *) {}
void symx_incomplete(const char *) {}
void symx_note(const char *f, ...) { va_list ap; va_start(ap, f); fprintf(stderr, "  note: "); vfprintf(stderr, f, ap); fprintf(stderr, "\n"); va_end(ap); }
const char *symx_text(long v) { static std::string s[16]; static int i; auto &r = s[i++ & 15]; r = std::to_string(v); return r.c_str(); }
long symx_text_lookup(const char *, int *f) { *f = 0; return 0; }
const char *symx_arg(const char *k, const char *d) { auto it = opts.find(k); return it == opts.end() ? d : it->second.c_str(); }
long symx_arg_int(const char *k, long d) { auto it = opts.find(k); return it == opts.end() ? d : atol(it->second.c_str()); }
int sym_main(int argc, char **argv, void (*body)()) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-o" && i + 1 < argc) { std::string kv = argv[++i]; size_t p = kv.find('='); opts[kv.substr(0, p)] = p == std::string::npos ? "1" : kv.substr(p + 1); }
    else if (a == "--replay" && i + 1 < argc) { FILE *f = fopen(argv[++i], "r"); char b[256]; if (!f) return 2; while (fgets(b, sizeof b, f)) if (b[0] != '#' && b[0] != '\n') in.push_back(atol(b)); fclose(f); }
    else return 2;
  }
  body(); symx_done(); return 0;
}
}
