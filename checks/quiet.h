// Included before everything else: what the library's debug output prints is computed
// and dropped.
#include <cstdarg>
#include <cstdio>
#include <string>
static void __attribute__((format(printf, 2, 3), no_sanitize("thread"), unused, noinline))
quiet_fprintf(FILE *, const char *f, ...) {
  char s[400];
  va_list v;
  va_start(v, f);
  vsnprintf(s, sizeof s, f, v);
  va_end(v);
}
#define fprintf quiet_fprintf
#define RTMLIB_DEBUG 3
