/* C library functions the library (or a rewrite of it) may call */
#include <stddef.h>
int memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = a, *y = b;
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
void *memchr(const void *p, int c, size_t n) {
  const unsigned char *s = p;
  for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i);
  return NULL;
}
void *memrchr(const void *p, int c, size_t n) {
  const unsigned char *s = p;
  while (n--) if (s[n] == (unsigned char)c) return (void *)(s + n);
  return NULL;
}
char *strchr(const char *s, int c) {
  for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; }
}
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isblank(int c) { return c == ' ' || c == 9; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
