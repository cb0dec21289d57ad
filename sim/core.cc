// core.cc: plans as text, scratch worlds, the interpreter of simulated processes, and running a plan in a process of its own.
#include "osim.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

std::map<str, u64> extraCounters;
void bump(const str &k, u64 n) { extraCounters[k] += n; }
bool schedStep();
void settle(); void armFaults();

str strf(const char *fmt, ...) {
  char b[2048]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n < (int)sizeof b) return str(b, n);
  str r(n + 1, 0); va_start(ap, fmt); vsnprintf(&r[0], n + 1, fmt, ap); va_end(ap); r.resize(n); return r;
}
str esc(const str &s) {
  if (s.empty()) return "%-";
  str r; static const char hx[] = "0123456789abcdef";
  for (unsigned char c : s) {
    if (c == '\n') r += "%n"; else if (c == ' ') r += "%s"; else if (c == '%') r += "%%";
    else if (c > 32 && c < 127) r += c; else { r += "%x"; r += hx[c >> 4]; r += hx[c & 15]; }
  }
  return r;
}
str unesc(const str &s) {
  if (s == "%-") return "";
  str r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '%' || i + 1 >= s.size()) { r += s[i]; continue; }
    char c = s[++i];
    if (c == 'n') r += '\n'; else if (c == 's') r += ' '; else if (c == '%') r += '%';
    else if (c == 'x' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
  }
  return r;
}
strs split(const str &s, char d) { strs r; size_t a = 0; for (;;) { size_t b = s.find(d, a); if (b == str::npos) { r.push_back(s.substr(a)); return r; } r.push_back(s.substr(a, b - a)); a = b + 1; } }
str clip(const str &s, size_t n) { return s.size() <= n ? s : s.substr(0, n) + strf("...(%zu bytes)", s.size()); }

str Plan::text() const {
  str r = "osim-plan 1\nprop " + prop + "\n" + strf("seed %llu\n", (unsigned long long)seed);
  for (auto &k : knob) if (k.second) r += strf("knob %s %ld\n", k.first.c_str(), k.second);
  for (auto &f : files) r += strf("file %c %o %ld %s %s\n", f.type, f.mode, f.size, esc(f.path).c_str(), esc(f.data).c_str());
  for (auto &p : procs) {
    r += p.cli ? "proc cli" : "proc script"; for (auto &a : p.argv) r += " " + esc(a); r += "\n";
    for (auto &o : p.ops) { r += " op " + o.name; for (auto &a : o.a) r += " " + esc(a); r += "\n"; }
  }
  for (auto &f : faults) r += strf("fault %d %s %s %ld %s %ld\n", f.proc, f.site.c_str(), esc(f.path).c_str(), f.nth, f.act.c_str(), f.arg);
  for (auto &e : edits) r += strf("edit %ld %s %s %s\n", e.step, e.op.c_str(), esc(e.path).c_str(), esc(e.arg).c_str());
  for (auto &k : kills) r += strf("kill %d %ld\n", k.proc, k.step);
  if (sched.size()) { r += "sched"; for (int s : sched) r += strf(" %d", s); r += "\n"; }
  return r;
}
bool Plan::parse(const str &t, Plan &p) {
  p = Plan(); bool head = false;
  for (auto &l : split(t, '\n')) {
    if (l.empty() || l[0] == '#') continue;
    strs w = split(l[0] == ' ' ? l.substr(1) : l, ' ');
    if (w[0] == "osim-plan") head = true;
    else if (w[0] == "prop") p.prop = w[1];
    else if (w[0] == "seed") p.seed = strtoull(w[1].c_str(), 0, 10);
    else if (w[0] == "knob") p.knob[w[1]] = atol(w[2].c_str());
    else if (w[0] == "file") { FileSpec f; f.type = w[1][0]; f.mode = strtol(w[2].c_str(), 0, 8); f.size = atol(w[3].c_str()); f.path = unesc(w[4]); f.data = unesc(w[5]); p.files.push_back(f); }
    else if (w[0] == "proc") { Proc q; q.cli = w[1] == "cli"; for (size_t i = 2; i < w.size(); i++) q.argv.push_back(unesc(w[i])); p.procs.push_back(q); }
    else if (w[0] == "op") { Op o; o.name = w[1]; for (size_t i = 2; i < w.size(); i++) o.a.push_back(unesc(w[i])); if (p.procs.empty()) return false; p.procs.back().ops.push_back(o); }
    else if (w[0] == "fault") p.faults.push_back({atoi(w[1].c_str()), w[2], unesc(w[3]), atol(w[4].c_str()), w[5], atol(w[6].c_str())});
    else if (w[0] == "edit") p.edits.push_back({atol(w[1].c_str()), w[2], unesc(w[3]), unesc(w[4])});
    else if (w[0] == "kill") p.kills.push_back({atoi(w[1].c_str()), atol(w[2].c_str())});
    else if (w[0] == "sched") for (size_t i = 1; i < w.size(); i++) p.sched.push_back(atoi(w[i].c_str()));
    else return false;
  }
  return head;
}

// ---------------------------------------------------------------- scratch worlds
static void rmAt(int dfd, const char *name) {
  if (unlinkat(dfd, name, 0) == 0 || (errno != EISDIR && errno != EPERM && errno != EACCES)) return;
  int fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
  if (fd < 0) { if (fchmodat(dfd, name, 0700, 0)) {} fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW); if (fd < 0) return; }
  fchmod(fd, 0700);
  strs names;
  if (DIR *d = fdopendir(dup(fd))) { while (struct dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name); closedir(d); }
  for (auto &n : names) rmAt(fd, n.c_str());
  close(fd); unlinkat(dfd, name, AT_REMOVEDIR);
}
void rmTree(const str &path) { if (path.size() > 4 && (path.find("osim") != str::npos)) rmAt(AT_FDCWD, path.c_str()); }
// creates all parents relative to dfd with steps short enough for any depth; returns a descriptor of the parent
static int parentOf(int dfd, const str &path, str &leaf) {
  strs c = split(path, '/'); int d = dup(dfd);
  for (size_t i = 0; i + 1 < c.size(); i++) {
    if (c[i].empty()) continue;
    mkdirat(d, c[i].c_str(), 0755);
    int n = openat(d, c[i].c_str(), O_RDONLY | O_DIRECTORY); close(d); if (n < 0) return -1; d = n;
  }
  leaf = c.back(); return d;
}
void materialise(const Plan &p, const str &dir) {
  mkdir(dir.c_str(), 0755);
  for (auto s : {"/tree", "/T", "/P"}) mkdir((dir + s).c_str(), 0755);
  int tree = open((dir + "/tree").c_str(), O_RDONLY | O_DIRECTORY), tdir = open((dir + "/T").c_str(), O_RDONLY | O_DIRECTORY);
  std::vector<const FileSpec *> modes;
  for (auto &f : p.files) {
    str leaf; int d = parentOf(f.type == 't' ? tdir : tree, f.path, leaf); if (d < 0) continue;
    if (f.type == 'd') mkdirat(d, leaf.c_str(), 0755);
    else if (f.type == 'l') { if (symlinkat(f.data.c_str(), d, leaf.c_str())) {} }
    else if (f.type == 'p') {
      mkfifoat(d, leaf.c_str(), 0644);
      for (int k = 0; k < 2; k++) { // both spellings: relative and @-absolute
        str n = k ? "@/tree/" + f.path : f.path;
        int fd = open((dir + "/P/" + strf("%016llx", (unsigned long long)hashS(n))).c_str(), O_CREAT | O_WRONLY, 0644);
        if (fd >= 0) { if (write(fd, f.data.data(), f.data.size())) {} close(fd); }
      }
    } else if (f.type == 's') { int fd = openat(d, leaf.c_str(), O_CREAT | O_WRONLY, 0644); if (fd >= 0) { if (f.data.size() && write(fd, f.data.data(), f.data.size())) {} if (ftruncate(fd, f.size)) {} close(fd); } }
    else if (f.type == 'f' || f.type == 't') { int fd = openat(d, leaf.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (fd >= 0) { size_t o = 0; while (o < f.data.size()) { ssize_t n = write(fd, f.data.data() + o, f.data.size() - o); if (n <= 0) break; o += n; } close(fd); } }
    else if (f.type == 'h') { if (linkat(tree, f.data.c_str(), d, leaf.c_str(), 0)) { int fd = openat(d, leaf.c_str(), O_CREAT | O_WRONLY, 0644); if (fd >= 0) close(fd); } } // (another name of an earlier file)
    else if (f.type == 'k') { if (mknodat(d, leaf.c_str(), S_IFSOCK | 0644, 0)) {} }
    if (f.mode != 0644 && f.type == 'f' && fchmodat(d, leaf.c_str(), f.mode, 0)) {}
    close(d);
  }
  close(tree); close(tdir);
}
static void snapAt(int dfd, const char *name, const str &path, str &out, int depth) {
  struct stat st; if (fstatat(dfd, name, &st, AT_SYMLINK_NOFOLLOW)) return;
  out += strf("%s %o %ld ", path.c_str(), st.st_mode, S_ISDIR(st.st_mode) ? 0L : (long)st.st_size);
  if (S_ISLNK(st.st_mode)) { char b[512]; ssize_t n = readlinkat(dfd, name, b, sizeof b); out += "-> " + str(b, n > 0 ? n : 0); }
  if (S_ISREG(st.st_mode)) {
    out += strf("%ld.%ld ", (long)st.st_mtim.tv_sec, (long)st.st_mtim.tv_nsec);
    if (st.st_size < (8 << 20)) { int fd = openat(dfd, name, O_RDONLY); str d(st.st_size, 0); if (fd >= 0) { ssize_t n = read(fd, &d[0], d.size()); d.resize(n > 0 ? n : 0); close(fd); } out += strf("%016llx", (unsigned long long)hashS(d)); }
  }
  out += "\n";
  if (S_ISDIR(st.st_mode)) {
    int fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW); if (fd < 0) return;
    std::set<str> names; if (DIR *d = fdopendir(dup(fd))) { while (struct dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.insert(e->d_name); closedir(d); }
    for (auto &n : names) snapAt(fd, n.c_str(), path + "/" + n, out, depth + 1);
    close(fd);
  }
}
str snapshot(const str &dir) { str r; snapAt(AT_FDCWD, dir.c_str(), "", r, 0); return r; }

// ---------------------------------------------------------------- what a simulated process does
struct EvAcc { u64 h = 1; long n = 0; std::map<str, long> cnt; str text; bool keep = false; };
static void entCb(const char *l, const char *e, int s, int t, void *u) {
  EvAcc *a = (EvAcc *)u; str x = strf("%s\t%s\t%d\t%d\n", l ? l : "(null)", e ? e : "(null)", s, t);
  a->h = hashS(x, a->h); a->n++; a->cnt[str(l ? l : "(null)") + "/" + (e ? e : "(null)")]++;
  if (a->keep && a->text.size() < 100000) a->text += x;
}
static str evText(const EvAcc &a) { str r = strf("n=%ld h=%016llx", a.n, (unsigned long long)a.h); for (auto &c : a.cnt) r += strf(" %s:%ld", c.first.c_str(), c.second); return r; }
static void locCb(void *u, const char *l, int c, int m, int b, int f) { *(str *)u += strf("%s %d %d %d %d\n", l, c, m, b, f); }
static long textLines(const char *t) { long n = 0; bool in = false; for (; *t; t++) { if (*t == '\n') { if (in) n++; in = false; } else in = true; } return n + in; }
static void plCb(void *u, const char *l, int c, int m, int b, const char *ct, const char *mt) {
  *(str *)u += strf("%s %d %d %d %ld %ld %zu %zu %016llx %016llx\n", l, c, m, b, textLines(ct), textLines(mt), strlen(ct), strlen(mt), (unsigned long long)hashS(ct), (unsigned long long)hashS(mt));
}
// per language: code lines and comment lines as short hashes, in order
// (and the classic 16-bit sum of each, by which the comparison may take different lines for candidates)
static int lineSum(const char *t, size_t n) { long s = 1; unsigned sh = 0; while (n--) { s += (long)*t++ << (sh &= 15); sh += 7; } s = (s & 0xffff) + (s >> 16); return (short)(s & 0xffff) + (short)(s >> 16); }
static void lineHashes(str &o, const char *t) { while (*t) { const char *e = strchrnul(t, '\n'); if (e > t) o += strf(" %08x.%x", (u32)hash64(t, e - t), (unsigned)lineSum(t, e - t)); t = *e ? e + 1 : e; } }
static void lineCb(void *u, const char *l, int c, int m, int b, const char *ct, const char *mt) {
  str &o = *(str *)u; o += strf("%s %d %d %d c", l, c, m, b); lineHashes(o, ct); o += " m"; lineHashes(o, mt); o += "\n";
}
static void licCb(void *u, const char *l) { *(str *)u += str(l ? l : "(null)") + " "; }
static void deltaCb(void *u, const char *l, int a, int b, int c, int d, int e, int f) { *(str *)u += strf("%s %d %d %d %d %d %d\n", l, a, b, c, d, e, f); }
static str deltaText(SutFns *f, void *l) {
  str r; f->dl_walk(l, deltaCb, &r); int o[10]; f->dl_sums(l, o);
  r += strf("= %d %d %d %d %d %d net %d %d %d %d", o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], o[8], o[9]); return r;
}
static str locListText(SutFns *f, void *l) { str r; f->ll_walk(l, locCb, &r); int o[5]; f->ll_sums(l, o); return r + strf("= %d %d %d %d %d", o[0], o[1], o[2], o[3], o[4]); }
str contentsText(const char *c, long n) {
  if (!c) return strf("none size=%ld", n);
  if (n < 0) return strf("text with size=%ld", n);
  return strf("size=%ld h=%016llx end=%d", n, (unsigned long long)hashS(str(c, n)), (int)c[n]);
}
static str query(SutFns *f, void *s, const str &k) {
  if (k == "contents") { const char *c = f->contents(s); int n = f->size(s); return contentsText(c, n); }
  if (k == "size") return strf("%d", f->size(s));
  if (k == "lang") { const char *l = f->language(s); return l ? l : "(none)"; }
  if (k == "parse") { f->parse(s); return "ok"; }
  str r;
  if (k == "pll") { f->pll(s, plCb, &r); return r; }
  if (k == "lines") { f->pll(s, lineCb, &r); return r; }
  if (k == "loc") { f->loc(s, locCb, &r); return r; }
  if (k == "lic") { f->lic(s, licCb, &r); return r; }
  if (k == "path") { str n = f->filepath(s); if (!n.compare(0, simBase.size(), simBase)) n = "@" + n.substr(simBase.size()); return n + "|" + f->filename(s) + "|" + f->ext(s); }
  EvAcc a;
  if (k == "annot") { f->annot(s, entCb, &a); return evText(a); }
  if (k == "ents") { f->ents(s, entCb, &a); return evText(a); }
  return "?";
}
struct Lister { SutFns *f; str kind; str out; };
static void listCb(void *u, void *sf) {
  Lister *l = (Lister *)u; l->out += esc(l->f->filepath(sf));
  if (l->kind.size()) l->out += " " + esc(query(l->f, sf, l->kind));
  l->out += "\n";
}
static void runScript(Inst *me, const Proc &p) {
  SutFns *f = me->f; std::map<str, void *> S, L, D, M; std::vector<char **> keep;
  for (size_t i = 0; i < p.ops.size(); i++) {
    const Op &o = p.ops[i]; me->curOp = i; SH->curOp = i;
    auto a = [&](size_t k) -> const str & { static const str e; return k < o.a.size() ? o.a[k] : e; };
    auto abs = [&](const str &x) { return x.size() && x[0] == '@' ? simBase + x.substr(1) : x; };
    if (o.name == "new") { S[a(0)] = f->sf_new(abs(a(1)).c_str()); if (a(2).size()) f->set_disk(S[a(0)], abs(a(2)).c_str()); }
    else if (o.name == "setcontents") { if (S.count(a(0))) f->set_contents(S[a(0)], a(1).c_str()); }
    else if (o.name == "setdisk") { if (S.count(a(0))) f->set_disk(S[a(0)], abs(a(1)).c_str()); }
    else if (o.name == "setlang") { if (S.count(a(0))) f->set_lang(S[a(0)], a(1).c_str()); }
    else if (o.name == "setnames") {
      if (!S.count(a(0))) continue;
      char **v = (char **)calloc(o.a.size() + 1, sizeof(char *)); for (size_t k = 1; k < o.a.size(); k++) v[k - 1] = strdup(o.a[k].c_str());
      f->set_filenames(S[a(0)], v);
    }
    else if (o.name == "q") { if (S.count(a(0))) { str r = query(f, S[a(0)], a(1)); obs("q", r); } }
    else if (o.name == "free") { if (S.count(a(0))) { f->sf_free(S[a(0)]); S.erase(a(0)); } }
    else if (o.name == "diff") { if (S.count(a(0)) && S.count(a(1))) { void *l = f->diff(S[a(0)], S[a(1)]); str r = deltaText(f, l); f->dl_free(l); obs("diff", r); } }
    else if (o.name == "dnew") D[a(0)] = f->dl_new();
    else if (o.name == "dadd") { if (D.count(a(0)) && S.count(a(1)) && S.count(a(2))) { void *l = f->diff(S[a(1)], S[a(2)]); str r = deltaText(f, l); f->dl_add(D[a(0)], l); f->dl_free(l); obs("dadd", r); } }
    else if (o.name == "dmerge") { if (D.count(a(0)) && D.count(a(1)) && a(0) != a(1)) f->dl_add(D[a(0)], D[a(1)]); }
    else if (o.name == "drec") { if (D.count(a(0))) obs("drec", deltaText(f, D[a(0)])); }
    else if (o.name == "dcompact") { if (D.count(a(0))) { void *l = f->dl_compact(D[a(0)]); obs("dcompact", deltaText(f, l)); f->dl_free(l); } }
    else if (o.name == "dfree") { if (D.count(a(0))) { f->dl_free(D[a(0)]); D.erase(a(0)); } }
    else if (o.name == "mnew") M[a(0)] = f->ll_new();
    else if (o.name == "madd") { if (M.count(a(0)) && S.count(a(1))) f->ll_add(M[a(0)], f->ll_of(S[a(1)])); }
    else if (o.name == "mmerge") { if (M.count(a(0)) && M.count(a(1)) && a(0) != a(1)) f->ll_add(M[a(0)], M[a(1)]); }
    else if (o.name == "mrec") { if (M.count(a(0))) obs("mrec", locListText(f, M[a(0)])); }
    else if (o.name == "mcompact") { if (M.count(a(0))) { void *l = f->ll_compact(M[a(0)]); obs("mcompact", locListText(f, l)); f->ll_free(l); } }
    else if (o.name == "mfree") { if (M.count(a(0))) { f->ll_free(M[a(0)]); M.erase(a(0)); } }
    else if (o.name == "lnew") L[a(0)] = f->l_new();
    else if (o.name == "ladd") { if (L.count(a(0))) f->l_add(L[a(0)], abs(a(1)).c_str()); }
    else if (o.name == "ldir") { if (L.count(a(0))) { f->l_dir(L[a(0)], abs(a(1)).c_str()); } }
    else if (o.name == "lq") { if (L.count(a(0))) { Lister l{f, a(1), ""}; f->l_walk(L[a(0)], listCb, &l); obs("lq", l.out); } }
    else if (o.name == "lan") { if (L.count(a(0))) { void *l = f->l_analyze(L[a(0)]); str r = locListText(f, l); f->ll_free(l); obs("lan", r); } }
    else if (o.name == "lfree") { if (L.count(a(0))) { f->l_free(L[a(0)]); L.erase(a(0)); } }
    else if (o.name == "res") obs("res", strf("%ld %ld %zu %zu %zu %zu %zu %ld", me->live, me->liveBytes, me->fds.size(), me->streams.size(), me->dirs.size(), me->pipes.size() + me->unreaped, me->magics.size(), arenaSeq()));
    else if (o.name == "settle") settle();
    else if (o.name == "arm") armFaults();
    else if (o.name == "live") obs("live", arenaLive(me->id, atol(a(0).c_str())));
    else obs("badop", o.name);
  }
  me->curOp = -2;
}
static void entry(int id) {
  Inst *me = &insts[id]; const Proc &p = PL->procs[id];
  if (p.cli) {
    std::vector<char *> av; av.push_back(strdup("ohcount"));
    for (auto &a : p.argv) av.push_back(strdup((a.size() && a[0] == '@' ? simBase + a.substr(1) : a).c_str()));
    av.push_back(nullptr);
    me->curOp = 0; SH->curOp = 0;
    optind = 0; opterr = 1;
    int rc = me->f->cli(av.size() - 1, av.data());
    procExit(rc & 255, ST_DONE);
  }
  runScript(me, p);
  procExit(0, ST_DONE);
}
static const size_t STK = 8u << 20;
void coreZygote(const str &sutDir) {
  for (int i = 0; i < NPROC; i++) {
    void *h = dlopen((sutDir + strf("/sut%d.so", i)).c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
    SutFns *f = new SutFns; insts[i].f = f;
    struct { const char *n; void *p; } tab[] = {
      {"hz_sf_new", &f->sf_new}, {"hz_sf_free", &f->sf_free}, {"hz_sf_set_diskpath", &f->set_disk}, {"hz_sf_set_contents", &f->set_contents},
      {"hz_sf_set_language", &f->set_lang}, {"hz_sf_set_filenames", &f->set_filenames}, {"hz_sf_filepath", &f->filepath}, {"hz_sf_filename", &f->filename},
      {"hz_sf_ext", &f->ext}, {"hz_contents", &f->contents}, {"hz_size", &f->size}, {"hz_language", &f->language}, {"hz_parse", &f->parse}, {"hz_pll", &f->pll},
      {"hz_loc", &f->loc}, {"hz_lic", &f->lic}, {"hz_annot", &f->annot}, {"hz_ents", &f->ents}, {"hz_diff", &f->diff}, {"hz_delta_list_new", &f->dl_new},
      {"hz_delta_list_add_list", &f->dl_add}, {"hz_delta_list_compact", &f->dl_compact}, {"hz_delta_list_free", &f->dl_free}, {"hz_delta_walk", &f->dl_walk},
      {"hz_delta_sums", &f->dl_sums}, {"hz_delta_get", &f->dl_get}, {"hz_list_new", &f->l_new}, {"hz_list_add_file", &f->l_add}, {"hz_list_add_dir", &f->l_dir},
      {"hz_list_free", &f->l_free}, {"hz_list_analyze", &f->l_analyze}, {"hz_list_walk", &f->l_walk}, {"hz_loclist_new", &f->ll_new}, {"hz_loclist_of", &f->ll_of},
      {"hz_loclist_add_list", &f->ll_add}, {"hz_loclist_compact", &f->ll_compact}, {"hz_loclist_free", &f->ll_free}, {"hz_loclist_walk", &f->ll_walk},
      {"hz_loclist_sums", &f->ll_sums}, {"hz_loclist_get", &f->ll_get}, {"hz_main", &f->cli}};
    for (auto &t : tab) { void *s = dlsym(h, t.n); if (!s) { fprintf(stderr, "missing %s\n", t.n); exit(3); } *(void **)t.p = s; }
    char *want = (char *)(0x210000000000ULL + i * 0x10000000ULL);
    char *m = (char *)mmap(want, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m == MAP_FAILED) m = (char *)mmap(nullptr, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(m, 4096, PROT_NONE); insts[i].stack = m + 4096;
  }
}
static void simChild(const Plan &p, const str &dir, Shared *sh) {
  struct rlimit rl = {20, 25}; setrlimit(RLIMIT_CPU, &rl); rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  for (int s : {SIGINT, SIGTERM, SIGPIPE}) signal(s, SIG_DFL);
  SH = sh; simBase = dir;
  if (chdir((dir + "/tree").c_str())) _exit(9);
  umask(022);
  seamReset(p);
  for (size_t i = 0; i < p.procs.size() && i < NPROC; i++) {
    Inst &in = insts[i];
    long fill = p.k("stackfill"); // what an earlier, deeper call left on the stack
    if (fill) { size_t n = 96 << 10; u64 r = p.seed + fill; for (size_t k = 0; k < n; k += 8) { r = mix64(r); u64 v = fill == 1 ? 0xa5a5a5a5a5a5a5a5ULL : fill == 2 ? 0x8181818181818181ULL : r; memcpy(in.stack + STK - n + k, &v, 8); } }
    getcontext(&in.ctx); in.ctx.uc_stack.ss_sp = in.stack; in.ctx.uc_stack.ss_size = STK; in.ctx.uc_link = nullptr;
    makecontext(&in.ctx, (void (*)())entry, 1, (int)i);
  }
  while (schedStep()) {}
  arenaCheck();
  seamFinish();
  _exit(0);
}
Result Director::run(const Plan &p, const str &dir, Shared *sh) {
  rmTree(dir); materialise(p, dir);
  memset(sh, 0, offsetof(Shared, tr)); sh->nprocs = p.procs.size();
  fflush(nullptr);
  Result r; pid_t pid = fork();
  if (pid < 0) { r.harnessError = true; return r; }
  if (pid == 0) simChild(p, dir, sh);
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) { r.crashed = true; r.sig = WTERMSIG(st); if (r.sig == SIGXCPU || r.sig == SIGKILL) { r.crashed = false; r.hang = true; } }
  else if (WEXITSTATUS(st) != 0) r.harnessError = true;
  if (sh->hang) r.hang = true;
  r.crashProc = sh->curProc; r.crashOp = sh->curOp;
  for (int i = 0; i < NPROC; i++) { r.state[i] = sh->state[i]; r.code[i] = sh->code[i]; r.mallocs[i] = sh->mallocs[i]; }
  r.trHash = sh->trHash; r.schedHash = sh->schedHash; r.steps = sh->steps; r.switches = sh->switches; r.clock_us = sh->clock_us;
  for (u64 i = 0; i < sh->nfired; i++) r.fired[sh->fired[i].key] += sh->fired[i].n;
  for (int i = 0; i < sh->chosenN; i++) r.chosen.push_back(sh->chosen[i]);
  for (u64 o = 0; o < sh->obsLen;) { u32 h[4]; memcpy(h, sh->obs + o, 16); Obs x; x.proc = (int)h[0]; x.op = (int)h[1]; x.kind.assign(sh->obs + o + 16, h[2]); x.text.assign(sh->obs + o + 16 + h[2], h[3]); o += 16 + h[2] + h[3]; r.obs.push_back(x); }
  if (sh->obsDropped) r.harnessError = true;
  if (r.crashed) r.trHash = mix64(r.trHash ^ (u64)(r.sig + 100 * r.crashProc + 1000 * r.crashOp));
  return r;
}
Trace Director::dry(const Plan &p) {
  Trace t; Plan q = p; q.faults.clear(); q.kills.clear(); q.edits.clear();
  t.r = run(q);
  for (u64 i = 0; i < sh->trN; i++) { TrEv &e = sh->tr[i]; t.ev.push_back({(int)e.proc, str(sh->siteName[e.site]), str(sh->pool + e.pathOff, e.pathLen), e.nthSite, e.nthPath, e.size}); }
  return t;
}
Result Director::fresh(const Plan &mini) { freshRuns++; return run(mini, base + "/O", shO); }

struct CacheEnt { u64 h1, h2; u32 off, len; };
static CacheEnt *cacheTab; static char *cachePool; static u64 *cacheLen; enum { CACHE_N = 1 << 20 }; static const u64 CACHE_POOL = 400u << 20;
void cacheInit() {
  cacheTab = (CacheEnt *)mmap(nullptr, CACHE_N * sizeof(CacheEnt), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cachePool = (char *)mmap(nullptr, CACHE_POOL, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cacheLen = (u64 *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
str abnormal(const Result &r) {
  if (r.hang) return "!hang";
  if (r.crashed) return strf("!signal %d", r.sig);
  for (auto &o : r.obs) if (o.kind == "!mem") return "!mem " + o.text;
  if (r.state[0] == ST_EXIT) return strf("!exit %d", r.code[0]);
  if (r.harnessError) return "!harness";
  return "";
}
str Director::freshQuery(const Plan &mini) {
  str t = mini.text(); u64 h1 = hashS(t), h2 = hashS(t, 99);
  u64 s = h1 % CACHE_N;
  for (int i = 0; i < 64; i++, s = (s + 1) % CACHE_N) {
    if (!cacheTab[s].h1) break;
    if (cacheTab[s].h1 == h1 && cacheTab[s].h2 == h2) { freshHits++; return str(cachePool + cacheTab[s].off, cacheTab[s].len); }
  }
  Result r = fresh(mini);
  str a = abnormal(r);
  if (a.empty()) {
    if (mini.procs[0].cli) { const Obs *o = r.find(0, -2, "stdout"); a = o ? o->text : ""; }
    else { const Obs *o = nullptr; int last = mini.procs[0].ops.size() - 1; for (auto &x : r.obs) if (x.proc == 0 && x.op == last && x.kind[0] != '!' && x.kind[0] != '~') o = &x; a = o ? o->text : "!noanswer"; }
  }
  if (!cacheTab[s].h1 && *cacheLen + a.size() < CACHE_POOL && a != "!harness") {
    memcpy(cachePool + *cacheLen, a.data(), a.size());
    cacheTab[s].off = *cacheLen; cacheTab[s].len = a.size(); cacheTab[s].h2 = h2; *cacheLen += a.size(); cacheTab[s].h1 = h1;
  }
  return a;
}
