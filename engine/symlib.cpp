// Instrumented replacements of C string routines: compiled with the pass, so symbolic bytes are handled.
#include <cstddef>
extern "C" {
int __symlib_memcmp(const void *a, const void *b, size_t n)
{
  const unsigned char *x = (const unsigned char *) a, *y = (const unsigned char *) b;
  for (size_t i = 0; i < n; ++i)
    if (x[i] != y[i])
      return x[i] < y[i] ? -1 : 1;
  return 0;
}
size_t __symlib_strlen(const char *s)
{
  size_t n = 0;
  while (s[n])
    ++n;
  return n;
}
int __symlib_strcmp(const char *a, const char *b)
{
  for (size_t i = 0;; ++i) {
    if (a[i] != b[i])
      return (unsigned char) a[i] < (unsigned char) b[i] ? -1 : 1;
    if (!a[i])
      return 0;
  }
}
void *__symlib_memchr(const void *s, int c, size_t n)
{
  const unsigned char *x = (const unsigned char *) s;
  for (size_t i = 0; i < n; ++i)
    if (x[i] == (unsigned char) c)
      return (void *) (x + i);
  return nullptr;
}
char *__symlib_strchr(const char *s, int c)
{
  for (;; ++s) {
    if (*s == (char) c)
      return (char *) s;
    if (!*s)
      return nullptr;
  }
}
}
