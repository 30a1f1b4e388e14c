/* String functions with bounded loops, so that comparisons with local memory reduce too. */
#include <stddef.h>
#include <string.h>
/* a comparison counts as an access to its argument even if what it says is not used */
static volatile char SAW;
static inline int StrCmp(const char* a, const char* b) {
  SAW = a[0];
  for (size_t i = 0; i < 30; i++) {
    if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    if (!a[i]) return 0;
  }
  return 2;
}
static inline int StrNCmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < 30 && i < n; i++) {
    if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    if (!a[i]) return 0;
  }
  return 0;
}
static inline size_t StrLen(const char* a) {
  for (size_t i = 0; i < 30; i++) {
    if (!a[i]) return i;
  }
  return 30;
}
#define strcmp StrCmp
#define strncmp StrNCmp
#define strlen StrLen
#define ArrowErrorSet NanoarrowErrorSet
#include "nanoarrow/nanoarrow.c"
#undef ArrowErrorSet
static void Rel(struct ArrowSchema* s) {}
static inline void Sch(struct ArrowSchema* s, const char* format, const char* name, int64_t n, struct ArrowSchema** c) {
  s->format = format;
  s->name = name;
  s->metadata = 0;
  s->flags = 2;
  s->n_children = n;
  s->children = c;
  s->dictionary = 0;
  s->release = &Rel;
  s->private_data = 0;
}
