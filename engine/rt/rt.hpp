// C interface between harnesses and the engine (same functions in the native replay runtime)
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
typedef struct E SymE;
struct SymConfig { const char *name; void (*body)(); };
// values
long symx_int(const char *name, long lo, long hi, long init);   // fresh symbolic integer in [lo,hi]
long symx_choice(const char *name, long n);                      // explored exhaustively (concretised)
SymE *symx_of(long v);                                           // expression of an instrumented value
SymE *symx_const(long v);
SymE *symx_add(SymE *, SymE *);
SymE *symx_sub(SymE *, SymE *);
SymE *symx_mulc(SymE *, long);
SymE *symx_div(SymE *, long);
SymE *symx_mod(SymE *, long);
SymE *symx_le(SymE *, SymE *);
SymE *symx_eq(SymE *, SymE *);
SymE *symx_and(SymE *, SymE *);
SymE *symx_or(SymE *, SymE *);
SymE *symx_not(SymE *);
SymE *symx_ite(SymE *, SymE *, SymE *);
SymE *symx_bool(int);
long symx_eval(SymE *);         // value under the current concrete input
int symx_is_const(SymE *);
const char *symx_show(SymE *);
long symx_value(SymE *);        // concrete value carrying the expression as its shadow
long symx_fork(SymE *);         // path-splitting evaluation of a boolean formula
// properties
void symx_assume(SymE *);
void symx_check(SymE *, const char *label);
void symx_fail(const char *label, const char *detail);
void symx_reach(const char *label);
void symx_note(const char *fmt, ...);
void symx_done(); // end the path normally, now
int symx_native();
long symx_text_lookup(const char *s, int *found);
const char *symx_text(long v);  // decimal text whose parse yields the expression again
const char *symx_arg(const char *key, const char *dflt);  // -o key=value from the command line
long symx_arg_int(const char *key, long dflt);
void symx_mark_bytes(void *p, size_t n, const char *name);   // n fresh symbolic bytes, initial values = current memory
void symx_incomplete(const char *why);                        // the path was cut: outside the claim
int sym_main(int argc, char **argv, void (*body)());
}
