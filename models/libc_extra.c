/* C library functions the library under test may use and for which CBMC has no
 * built-in model.  Plain C, so CBMC checks every access they make. */
#define _GNU_SOURCE
#include <stddef.h>
#ifdef __CPROVER
#define B(p) ((const unsigned char *)(p))
#define W(p) ((unsigned char *)(p))
void *memchr(const void *s, int c, size_t n) {
  for (size_t i = 0; i < n; i++)
    if (B(s)[i] == (unsigned char)c) return W(s) + i;
  return NULL;
}
void *rawmemchr(const void *s, int c) {
  for (size_t i = 0;; i++)
    if (B(s)[i] == (unsigned char)c) return W(s) + i;
}
void *memrchr(const void *s, int c, size_t n) {
  for (size_t i = n; i > 0; i--)
    if (B(s)[i - 1] == (unsigned char)c) return W(s) + (i - 1);
  return NULL;
}
size_t strnlen(const char *s, size_t n) {
  size_t i = 0;
  while (i < n && s[i]) i++;
  return i;
}
static int vf_in_set(char c, const char *set) {
  for (; *set; set++)
    if (*set == c) return 1;
  return 0;
}
size_t strspn(const char *s, const char *a) {
  size_t i = 0;
  while (s[i] && vf_in_set(s[i], a)) i++;
  return i;
}
size_t strcspn(const char *s, const char *a) {
  size_t i = 0;
  while (s[i] && !vf_in_set(s[i], a)) i++;
  return i;
}
char *strpbrk(const char *s, const char *a) {
  for (; *s; s++)
    if (vf_in_set(*s, a)) return (char *)s;
  return NULL;
}
char *strchrnul(const char *s, int c) {
  while (*s && *s != (char)c) s++;
  return (char *)s;
}
void *memmem(const void *h, size_t hn, const void *n, size_t nn) {
  for (size_t i = 0; nn <= hn && i <= hn - nn; i++) {
    size_t k = 0;
    while (k < nn && B(h)[i + k] == B(n)[k]) k++;
    if (k == nn) return W(h) + i;
  }
  return NULL;
}
char *strstr(const char *h, const char *n) {
  for (size_t i = 0;; i++) {
    size_t k = 0;
    while (n[k] && h[i + k] == n[k]) k++;
    if (!n[k]) return (char *)h + i;
    if (!h[i]) return NULL;
  }
}
void explicit_bzero(void *s, size_t n) {
  for (size_t i = 0; i < n; i++) W(s)[i] = 0;
}
void *memccpy(void *d, const void *s, int c, size_t n) {
  for (size_t i = 0; i < n; i++)
    if ((W(d)[i] = B(s)[i]) == (unsigned char)c) return W(d) + i + 1;
  return NULL;
}
void *mempcpy(void *d, const void *s, size_t n) {
  for (size_t i = 0; i < n; i++) W(d)[i] = B(s)[i];
  return W(d) + n;
}
char *stpcpy(char *d, const char *s) {
  size_t i = 0;
  while ((d[i] = s[i])) i++;
  return d + i;
}
int bcmp(const void *a, const void *b, size_t n) {
  for (size_t i = 0; i < n; i++)
    if (B(a)[i] != B(b)[i]) return 1;
  return 0;
}
void *bsearch(const void *key, const void *base, size_t n, size_t size, int (*cmp)(const void *, const void *)) {
  size_t lo = 0, hi = n;
  while (lo < hi) {
    size_t m = lo + (hi - lo) / 2;
    int r = cmp(key, B(base) + m * size);
    if (r == 0) return W(base) + m * size;
    if (r < 0) hi = m; else lo = m + 1;
  }
  return NULL;
}
#endif
