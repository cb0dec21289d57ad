/* glue.c: compiled into the system under test against the repository's own headers, so that the simulator proper
 * does not depend on structure layouts. It only walks results; it calls nothing of libc. */
#include <stdlib.h>
#include "sourcefile.h"
#include "detector.h"
#include "diff.h"
#include "licenses.h"
#include "loc.h"
#include "parser.h"

typedef void (*str_cb)(void *, const char *);
typedef void (*ent_cb)(const char *, const char *, int, int, void *);
typedef void (*loc_cb)(void *, const char *, int, int, int, int);
typedef void (*pl_cb)(void *, const char *, int, int, int, const char *, const char *);
typedef void (*delta_cb)(void *, const char *, int, int, int, int, int, int);

void *hz_sf_new(const char *p) { return ohcount_sourcefile_new(p); }
void hz_sf_free(void *s) { ohcount_sourcefile_free(s); }
void hz_sf_set_diskpath(void *s, const char *p) { ohcount_sourcefile_set_diskpath(s, p); }
void hz_sf_set_contents(void *s, const char *c) { ohcount_sourcefile_set_contents(s, c); }
void hz_sf_set_language(void *s, const char *l) { ohcount_sourcefile_set_language(s, l); }
void hz_sf_set_filenames(void *s, char **f) { ((SourceFile *)s)->filenames = f; }
const char *hz_sf_filepath(void *s) { return ((SourceFile *)s)->filepath; }
const char *hz_sf_filename(void *s) { return ((SourceFile *)s)->filename; }
const char *hz_sf_ext(void *s) { return ((SourceFile *)s)->ext; }
const char *hz_contents(void *s) { return ohcount_sourcefile_get_contents(s); }
int hz_size(void *s) { return ohcount_sourcefile_get_contents_size(s); }
const char *hz_language(void *s) { return ohcount_sourcefile_get_language(s); }
void hz_parse(void *s) { ohcount_sourcefile_parse(s); }
void hz_pll(void *s, pl_cb cb, void *u) {
  ParsedLanguageList *i = ohcount_sourcefile_get_parsed_language_list(s);
  for (i = i ? i->head : 0; i; i = i->next)
    cb(u, i->pl->name, i->pl->code_count, i->pl->comments_count, i->pl->blanks_count, i->pl->code, i->pl->comments);
}
static void walk_loc(LocList *i, loc_cb cb, void *u) {
  for (i = i ? i->head : 0; i; i = i->next)
    cb(u, i->loc->language, i->loc->code, i->loc->comments, i->loc->blanks, i->loc->filecount);
}
void hz_loc(void *s, loc_cb cb, void *u) { walk_loc(ohcount_sourcefile_get_loc_list(s), cb, u); }
void hz_lic(void *s, str_cb cb, void *u) {
  LicenseList *i = ohcount_sourcefile_get_license_list(s);
  for (i = i ? i->head : 0; i; i = i->next) cb(u, i->lic->name);
}
void hz_annot(void *s, ent_cb cb, void *u) { ohcount_sourcefile_parse_with_callback(s, cb, u); }
void hz_ents(void *s, ent_cb cb, void *u) { ohcount_sourcefile_parse_entities_with_callback(s, cb, u); }
void *hz_diff(void *a, void *b) { return ohcount_sourcefile_diff(a, b); }
void *hz_delta_list_new(void) { return ohcount_loc_delta_list_new(); }
void hz_delta_list_add_list(void *a, void *b) { ohcount_loc_delta_list_add_loc_delta_list(a, b); }
void *hz_delta_list_compact(void *a) { return ohcount_loc_delta_list_new_compact(a); }
void hz_delta_list_free(void *a) { ohcount_loc_delta_list_free(a); }
void hz_delta_walk(void *l, delta_cb cb, void *u) {
  LocDeltaList *i = l;
  for (i = i ? i->head : 0; i; i = i->next)
    cb(u, i->delta->language, i->delta->code_added, i->delta->code_removed, i->delta->comments_added,
       i->delta->comments_removed, i->delta->blanks_added, i->delta->blanks_removed);
}
void hz_delta_sums(void *l, int *o) {
  o[0] = ohcount_loc_delta_list_code_added(l); o[1] = ohcount_loc_delta_list_code_removed(l);
  o[2] = ohcount_loc_delta_list_comments_added(l); o[3] = ohcount_loc_delta_list_comments_removed(l);
  o[4] = ohcount_loc_delta_list_blanks_added(l); o[5] = ohcount_loc_delta_list_blanks_removed(l);
  o[6] = ohcount_loc_delta_list_net_code(l); o[7] = ohcount_loc_delta_list_net_comments(l);
  o[8] = ohcount_loc_delta_list_net_blanks(l); o[9] = ohcount_loc_delta_list_net_total(l);
}
int hz_delta_get(void *l, const char *lang, int *o) {
  LocDelta *d = ohcount_loc_delta_list_get_loc_delta(l, lang);
  if (!d) return 0;
  o[0] = d->code_added; o[1] = d->code_removed; o[2] = d->comments_added; o[3] = d->comments_removed;
  o[4] = d->blanks_added; o[5] = d->blanks_removed;
  o[6] = ohcount_loc_delta_net_total(d);
  return 1;
}
void *hz_list_new(void) { return ohcount_sourcefile_list_new(); }
void hz_list_add_file(void *l, const char *p) { ohcount_sourcefile_list_add_file(l, p); }
void hz_list_add_dir(void *l, const char *p) { ohcount_sourcefile_list_add_directory(l, p); }
void hz_list_free(void *l) { ohcount_sourcefile_list_free(l); }
void *hz_list_analyze(void *l) { return ohcount_sourcefile_list_analyze_languages(l); }
void hz_list_walk(void *l, void (*cb)(void *, void *), void *u) {
  SourceFileList *i = l;
  for (i = i ? i->head : 0; i; i = i->next) cb(u, i->sf);
}
void *hz_loclist_new(void) { return ohcount_loc_list_new(); }
void *hz_loclist_of(void *s) { return ohcount_sourcefile_get_loc_list(s); }
void hz_loclist_add_list(void *a, void *b) { ohcount_loc_list_add_loc_list(a, b); }
void *hz_loclist_compact(void *a) { return ohcount_loc_list_new_compact(a); }
void hz_loclist_free(void *a) { ohcount_loc_list_free(a); }
void hz_loclist_walk(void *l, loc_cb cb, void *u) { walk_loc(l, cb, u); }
void hz_loclist_sums(void *l, int *o) {
  o[0] = ohcount_loc_list_code(l); o[1] = ohcount_loc_list_comments(l); o[2] = ohcount_loc_list_blanks(l);
  o[3] = ohcount_loc_list_total(l); o[4] = ohcount_loc_list_filecount(l);
}
int hz_loclist_get(void *l, const char *lang, int *o) {
  Loc *d = ohcount_loc_list_get_loc(l, lang);
  if (!d) return 0;
  o[0] = d->code; o[1] = d->comments; o[2] = d->blanks; o[3] = d->filecount;
  return 1;
}
int ohcount_cli_main(int, char **);
int hz_main(int c, char **v) { return ohcount_cli_main(c, v); }
