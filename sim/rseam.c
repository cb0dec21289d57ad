/* rseam.c: seams inside the Ruby binding. Linked into ohcount.so; the binding's calls into the interpreter and the
   program's heap and directory calls are wrapped at link time. Every wrapped call and every trace event is a tick; the
   plan says at which ticks the collector runs. */
#define _GNU_SOURCE
#include <ruby.h>
#include <dirent.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

/* ---------------------------------------------------------------- heap: filled, poisoned, never recycled */
#define LIVE 0x6f73696d4c495645ULL
#define DEAD 0x6f73696d44454144ULL
typedef struct { uint64_t magic; size_t size; } Head;
void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static unsigned char fillByte = 0xa5; static long live, liveBytes;
static void fault(const char *m) { static const char p[] = "rseam: "; if (write(2, p, 7) > 0 && write(2, m, strlen(m)) > 0 && write(2, "\n", 1) > 0) {} abort(); }
static void *get(size_t n, int c) {
  Head *h = __real_malloc(n + sizeof(Head) + 16); if (!h) return NULL;
  h->magic = LIVE; h->size = n; live++; liveBytes += n; memset(h + 1, c, n + 16); return h + 1;
}
void *__wrap_malloc(size_t n) { return get(n, fillByte); }
void *__wrap_calloc(size_t a, size_t b) { return get(a * b, 0); }
void __wrap_free(void *p) {
  if (!p) return;
  Head *h = (Head *)p - 1;
  if (h->magic == DEAD) fault("memory freed twice");
  if (h->magic != LIVE) { __real_free(p); return; }   /* given out by a library */
  live--; liveBytes -= h->size; memset(p, 0xdb, h->size); h->magic = DEAD;
}
void *__wrap_realloc(void *p, size_t n) {
  if (!p) return get(n, fillByte);
  Head *h = (Head *)p - 1; if (h->magic == DEAD) fault("freed memory resized");
  void *q = get(n, fillByte); memcpy(q, p, h->size < n ? h->size : n); __wrap_free(p); return q;
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = get(n, 0); memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *p = get(l + 1, 0); memcpy(p, s, l); p[l] = 0; return p; }

/* ---------------------------------------------------------------- collector schedule */
static int on, inside; static long ticks, nsched, nexts, ran[3]; static struct { long at; int flags; } sched[256];
static uint64_t trace = 1469598103934665603ULL;
static void mark(const char *s) { for (; *s; s++) trace = (trace ^ (unsigned char)*s) * 1099511628211ULL; }
static VALUE churn(VALUE u) {
  static const int len[] = {6, 20, 60, 130, 300};
  for (int k = 0; k < 5; k++) for (int i = 0; i < (k < 2 ? 3000 : 600); i++) { VALUE s = rb_str_new(NULL, len[k]); memset(RSTRING_PTR(s), 'Z', len[k]); }
  for (int i = 0; i < 300; i++) rb_ary_new();
  return u;
}
static void collect(int flags) {
  inside = 1;
  if (flags & 1) { rb_funcall(rb_mGC, rb_intern("start"), 0); ran[0]++; }
  if (flags & 2) { rb_funcall(rb_mGC, rb_intern("compact"), 0); ran[1]++; }
  if (flags & 4) { churn(Qnil); ran[2]++; }
  inside = 0;
}
static void tick(const char *what) {
  if (!on || inside) return;
  ticks++;
  while (nexts < nsched && sched[nexts].at < ticks) nexts++;
  if (nexts < nsched && sched[nexts].at == ticks) { char b[40]; snprintf(b, sizeof b, "@%ld:%d ", ticks, sched[nexts].flags); mark(b); mark(what); collect(sched[nexts++].flags); }
}
static VALUE m_tick(VALUE self, VALUE what) { tick(StringValueCStr(what)); return Qnil; }
static VALUE m_start(VALUE self, VALUE list) {
  nsched = nexts = ticks = 0;
  for (long i = 0; i < RARRAY_LEN(list) && nsched < 256; i++) { VALUE e = rb_ary_entry(list, i); sched[nsched].at = NUM2LONG(rb_ary_entry(e, 0)); sched[nsched++].flags = NUM2INT(rb_ary_entry(e, 1)); }
  on = 1; return Qnil;
}
static VALUE m_collect(VALUE self, VALUE flags) { collect(NUM2INT(flags)); return Qnil; }
static VALUE m_live(VALUE self) { return rb_ary_new_from_args(2, LONG2NUM(live), LONG2NUM(liveBytes)); }
static VALUE m_ticks(VALUE self) { return LONG2NUM(ticks); }
static VALUE m_stop(VALUE self) { on = 0; return Qnil; }
static VALUE m_ran(VALUE self) { return rb_ary_new_from_args(3, LONG2NUM(ran[0]), LONG2NUM(ran[1]), LONG2NUM(ran[2])); }
static VALUE m_trace(VALUE self) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)trace); return rb_str_new_cstr(b); }

/* ---------------------------------------------------------------- calls into the interpreter */
VALUE __real_rb_str_new(const char *, long);
VALUE __wrap_rb_str_new(const char *p, long n) { if (inside) return __real_rb_str_new(p, n); tick("rb_str_new"); return __real_rb_str_new(p, n); }
VALUE __real_rb_str_new_cstr(const char *);
VALUE __wrap_rb_str_new_cstr(const char *p) { tick("rb_str_new_cstr"); return __real_rb_str_new_cstr(p); }
VALUE __real_rb_data_object_wrap(VALUE, void *, RUBY_DATA_FUNC, RUBY_DATA_FUNC);
VALUE __wrap_rb_data_object_wrap(VALUE k, void *p, RUBY_DATA_FUNC m, RUBY_DATA_FUNC f) { tick("rb_data_object_wrap"); VALUE v = __real_rb_data_object_wrap(k, p, m, f); return v; }
VALUE __real_rb_ary_new(void);
VALUE __wrap_rb_ary_new(void) { if (!inside) tick("rb_ary_new"); return __real_rb_ary_new(); }
VALUE __real_rb_ary_push(VALUE, VALUE);
VALUE __wrap_rb_ary_push(VALUE a, VALUE v) { tick("rb_ary_push"); return __real_rb_ary_push(a, v); }
VALUE __real_rb_ary_entry(VALUE, long);
VALUE __wrap_rb_ary_entry(VALUE a, long i) { tick("rb_ary_entry"); return __real_rb_ary_entry(a, i); }
VALUE __real_rb_hash_aref(VALUE, VALUE);
VALUE __wrap_rb_hash_aref(VALUE a, VALUE v) { tick("rb_hash_aref"); return __real_rb_hash_aref(a, v); }
char *__real_rb_string_value_ptr(volatile VALUE *);
char *__wrap_rb_string_value_ptr(volatile VALUE *v) { tick("rb_string_value_ptr"); return __real_rb_string_value_ptr(v); }
VALUE __real_rb_ivar_set(VALUE, ID, VALUE);
VALUE __wrap_rb_ivar_set(VALUE o, ID i, VALUE v) { tick("rb_ivar_set"); return __real_rb_ivar_set(o, i, v); }

/* ---------------------------------------------------------------- enumeration order */
typedef struct { DIR *d; struct dirent **e; int n, at; } Dir;
static uint64_t orderSeed;
static uint64_t rnd(void) { uint64_t z = (orderSeed += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static int byName(const void *a, const void *b) { return strcmp((*(struct dirent **)a)->d_name, (*(struct dirent **)b)->d_name); }
DIR *__real_opendir(const char *); struct dirent *__real_readdir(DIR *); int __real_closedir(DIR *);
DIR *__wrap_opendir(const char *p) {
  DIR *r = __real_opendir(p); if (!r) return NULL;
  Dir *d = __real_malloc(sizeof *d); d->d = r; d->e = NULL; d->n = d->at = 0; struct dirent *e;
  while ((e = __real_readdir(r))) { d->e = __real_realloc(d->e, (d->n + 1) * sizeof *d->e); d->e[d->n] = __real_malloc(sizeof(struct dirent)); memcpy(d->e[d->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e); }
  qsort(d->e, d->n, sizeof *d->e, byName);
  if (orderSeed) for (int i = d->n - 1; i > 0; i--) { int j = rnd() % (i + 1); struct dirent *t = d->e[i]; d->e[i] = d->e[j]; d->e[j] = t; }
  return (DIR *)d;
}
struct dirent *__wrap_readdir(DIR *x) { Dir *d = (Dir *)x; return d->at < d->n ? d->e[d->at++] : NULL; }
int __wrap_closedir(DIR *x) {
  Dir *d = (Dir *)x; int r = __real_closedir(d->d);
  for (int i = 0; i < d->n; i++) __real_free(d->e[i]);
  __real_free(d->e); __real_free(d); return r;
}
static VALUE m_order(VALUE self, VALUE s) { orderSeed = NUM2ULL(s); return Qnil; }
static VALUE m_fill(VALUE self, VALUE b) { fillByte = NUM2INT(b); return Qnil; }

__attribute__((constructor)) static void rseamInit(void) {
  VALUE m = rb_define_module("RSim");
  rb_define_module_function(m, "tick", m_tick, 1); rb_define_module_function(m, "start", m_start, 1); rb_define_module_function(m, "stop", m_stop, 0);
  rb_define_module_function(m, "collect", m_collect, 1); rb_define_module_function(m, "ticks", m_ticks, 0); rb_define_module_function(m, "ran", m_ran, 0);
  rb_define_module_function(m, "trace", m_trace, 0); rb_define_module_function(m, "live", m_live, 0); rb_define_module_function(m, "order", m_order, 1); rb_define_module_function(m, "fill", m_fill, 1);
}
