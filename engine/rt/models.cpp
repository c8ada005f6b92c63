// Instrumented models of libc functions (compiled with the pass; module name contains "models")
#include <cstddef>
#include <cerrno>
#include <climits>
// A decimal text token produced by symx_text() carries its expression on its first byte
extern "C" long symx_text_lookup(const char *s, int *found);
extern "C" {
static bool isSpace(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
long __symm_strtol(const char *s, char **end, int base) {
  const char *p = s; while (isSpace(*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { base = 16; p += 2; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  const char *d = p; unsigned long v = 0; bool ovf = false; unsigned long lim = neg ? (unsigned long)LONG_MAX + 1 : (unsigned long)LONG_MAX;
  int found = 0; long tok = base == 10 ? symx_text_lookup(s, &found) : 0;
  for (;; p++) { int x; char c = *p; if (c >= '0' && c <= '9') x = c - '0'; else if (c >= 'a' && c <= 'z') x = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') x = c - 'A' + 10; else break; if (x >= base) break;
    if (!ovf) { if (v > (lim - (unsigned long)x) / (unsigned long)base) ovf = true; else v = v * (unsigned long)base + (unsigned long)x; } }
  if (p == d) { if (end) *end = (char *)s; return 0; }
  if (end) *end = (char *)p;
  if (ovf) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
  if (found) return tok;
  return neg ? (long)(0 - v) : (long)v;
}
long long __symm_strtoll(const char *s, char **e, int b) { return __symm_strtol(s, e, b); }
unsigned long __symm_strtoul(const char *s, char **e, int b) { return (unsigned long)__symm_strtol(s, e, b); }
unsigned long long __symm_strtoull(const char *s, char **e, int b) { return (unsigned long long)__symm_strtol(s, e, b); }
int __symm_memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int __symm_strcmp(const char *a, const char *b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
const void *__symm_memchr(const void *s, int c, size_t n) { const unsigned char *x = (const unsigned char *)s; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return x + i; return nullptr; }
size_t __symm_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
}
