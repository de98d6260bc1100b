// Linked with the command line tool (-Wl,--wrap=...): fails the allocations chosen by VERIF_OOM ("5" = the fifth, "5+" = the
// fifth and all later ones) and writes the number of allocations to the file named by VERIF_OOM_COUNT.
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); char *__real_strdup(const char *);
static long count, at = -1; static int all;
static int refuse(void) {
  if (at < 0) { const char *e = getenv("VERIF_OOM"); at = e ? atol(e) : 0; all = e && strchr(e, '+'); }
  count++; return at && (count == at || (all && count > at));
}
void *__wrap_malloc(size_t n) { return refuse() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return refuse() ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return refuse() ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return refuse() ? NULL : __real_strdup(s); }
__attribute__((destructor)) static void report(void) {
  const char *f = getenv("VERIF_OOM_COUNT"); char b[32]; int n, fd;
  if (!f || (fd = open(f, O_CREAT | O_TRUNC | O_WRONLY, 0600)) < 0) return;
  n = snprintf(b, sizeof b, "%ld", count); if (write(fd, b, n) != n) _exit(98); close(fd);
}
