/* The C interface, as a C program sees it. */
#include "wtr/watcher-c.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

void sim_event_n(int w, char const* path, size_t n, int effect, int kind, long long t,
                 int has_assoc, char const* apath, size_t an, int aeffect, int akind, long long atime);
void sim_fail(char const* cls, char const* msg);

struct ctx {
  unsigned magic;
  int w;
  void* handle;
  int closed;
};
static unsigned const MAGIC = 0x77617463u;

static int effect(int8_t e) {
  if (e == WTR_WATCHER_EFFECT_RENAME) return 0;
  if (e == WTR_WATCHER_EFFECT_MODIFY) return 1;
  if (e == WTR_WATCHER_EFFECT_CREATE) return 2;
  if (e == WTR_WATCHER_EFFECT_DESTROY) return 3;
  if (e == WTR_WATCHER_EFFECT_OWNER) return 4;
  if (e == WTR_WATCHER_EFFECT_OTHER) return 5;
  return -1;
}
static int kind(int8_t k) {
  if (k == WTR_WATCHER_PATH_DIR) return 0;
  if (k == WTR_WATCHER_PATH_FILE) return 1;
  if (k == WTR_WATCHER_PATH_HARD_LINK) return 2;
  if (k == WTR_WATCHER_PATH_SYM_LINK) return 3;
  if (k == WTR_WATCHER_PATH_WATCHER) return 4;
  if (k == WTR_WATCHER_PATH_OTHER) return 5;
  return -1;
}
static void on_event(struct wtr_watcher_event e, void* context) {
  struct ctx* c = context;
  size_t n, an = 0;
  char *p, *a = NULL;
  if (! c || c->magic != MAGIC) { sim_fail("c.context", "a callback is given another context than the one of its watcher"); return; }
  if (c->closed) { sim_fail("cb.after-close", "a callback is made after wtr_watcher_close returned"); return; }
  if (! e.path_name) { sim_fail("c.path", "an event has no path"); return; }
  n = strlen(e.path_name);
  p = malloc(n + 1);
  memcpy(p, e.path_name, n + 1);
  if (e.associated_path_name) {
    an = strlen(e.associated_path_name);
    a = malloc(an + 1);
    memcpy(a, e.associated_path_name, an + 1);
  }
  /* kinds of what is associated are not passed on */
  sim_event_n(c->w, p, n, effect(e.effect_type), kind(e.path_type), e.effect_time, a != NULL, a ? a : "", an, -1, -1, e.effect_time);
  /* others have run meanwhile: the strings are still what they were */
  if (strcmp(p, e.path_name) || (a && strcmp(a, e.associated_path_name))) sim_fail("c.lifetime", "the strings of an event change while its callback runs");
  free(p);
  free(a);
}
void* sut_open(char const* path, int w) {
  struct ctx* c = calloc(1, sizeof *c);
  c->magic = MAGIC;
  c->w = w;
  c->handle = wtr_watcher_open(path, on_event, c);
  if (! c->handle) sim_fail("c.handle", "wtr_watcher_open returned null");
  return c;
}
int sut_close(void* h, int w) {
  struct ctx* c = h;
  bool r = wtr_watcher_close(c->handle);
  (void)w;
  c->closed = 1;
  return r;
}
void sut_destroy(void* h, int w) { (void)w; free(h); }
int sut_caps(void) { return 0; }
void sut_op(char const* verb, char const* a, char const* b) {
  (void)a; (void)b;
  if (! strcmp(verb, "nullclose")) {
    if (wtr_watcher_close(NULL)) sim_fail("close.null", "closing a null handle returned true");
  }
}
