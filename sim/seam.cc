// seam.cc: everything the system under test asks of libc, libmagic and the pcre allocator comes through here.
// One plan (seed) decides scheduling, delays, chunking, directory order, memory contents and every fault.
#include "osim.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <dirent.h>
#include <malloc.h>
#include <fcntl.h>
#include <magic.h>
#include <pcre.h>
#include <signal.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

Shared *SH; const Plan *PL; Inst *cur; Inst insts[NPROC]; str simBase;
static ucontext_t schedCtx;
static std::unordered_map<str, int> tempOwner; // path below T -> instance (or -1: left behind by an earlier process)
static std::vector<std::pair<Fault, bool>> faults;
static std::vector<Edit> edits; static size_t nextEdit;
static bool armed = true; static long stepCap; static bool multi; static u64 orderSeed, chunkKnob; static long fdCap; static long nameCounter, nameSpace;
static std::map<str, u64> fired;

static int siteId(const char *s) {
  for (int i = 0; i < SH->nSites; i++) if (!strcmp(SH->siteName[i], s)) return i;
  if (SH->nSites >= NSITE) return NSITE - 1;
  strncpy(SH->siteName[SH->nSites], s, 15); return SH->nSites++;
}

static void fire(const str &key) {
  for (u64 i = 0; i < SH->nfired; i++) if (!strncmp(SH->fired[i].key, key.c_str(), 47)) { SH->fired[i].n++; return; }
  if (SH->nfired < 64) { strncpy(SH->fired[SH->nfired].key, key.c_str(), 47); SH->fired[SH->nfired].n = 1; SH->nfired++; }
}
void obsAs(int proc, int op, const str &kind, const str &text) {
  size_t need = 16 + kind.size() + text.size();
  if (SH->obsLen + need > OBS_MAX) { SH->obsDropped++; return; }
  char *p = SH->obs + SH->obsLen;
  u32 h[4] = {(u32)proc, (u32)op, (u32)kind.size(), (u32)text.size()};
  memcpy(p, h, 16); memcpy(p + 16, kind.data(), kind.size()); memcpy(p + 16 + kind.size(), text.data(), text.size());
  SH->obsLen += need;
  if (text.find(simBase) == str::npos || simBase.empty()) { SH->trHash = hashS(text, hashS(kind, SH->trHash ^ (u64)(proc * 1000003 + op))); return; }
  str t = text; for (size_t i = 0; (i = t.find(simBase, i)) != str::npos;) t.replace(i, simBase.size(), "@"); // the same in every scratch directory
  SH->trHash = hashS(t, hashS(kind, SH->trHash ^ (u64)(proc * 1000003 + op)));
}
void obs(const str &kind, const str &text) { obsAs(cur ? cur->id : -1, cur ? cur->curOp : -1, kind, text); }

// ---------------------------------------------------------------- paths
static str mapPath(const char *p) {
  if (!p) return "";
  if (!strncmp(p, simBase.c_str(), simBase.size())) return p;
  if (!strncmp(p, "/tmp/", 5)) return simBase + "/T/" + (p + 5);
  if (!strcmp(p, "/tmp") || !strcmp(p, "/tmp/")) return simBase + "/T";
  return p;
}
static str norm(const char *p) {
  if (!p) return "(null)";
  if (!strncmp(p, simBase.c_str(), simBase.size())) return str("@") + (p + simBase.size());
  return p;
}
static bool isTemp(const str &mapped, str &rel) {
  str t = simBase + "/T/";
  if (mapped.compare(0, t.size(), t) == 0) { rel = mapped.substr(t.size()); return true; }
  return false;
}
static bool isDevice(const str &m) { return m.compare(0, 5, "/dev/") == 0; }
static void footprint(const str &what, const char *p) { obs("!foot", what + " " + norm(p)); }
static void interfere(const str &what, const str &rel) { obs("!interf", what + " /tmp/" + rel); }

// ---------------------------------------------------------------- scheduling
static std::unordered_map<str, u64> editedAt; // path in the plan's tree -> simulated time of its last change
static void applyEdits() {
  while (nextEdit < edits.size() && edits[nextEdit].step <= (long)SH->steps) {
    const Edit &e = edits[nextEdit++];
    str tree = simBase + "/tree/", p = tree + e.path;
    int r = 0;
    if (e.op == "replace" || e.op == "create") {
      str tmp = simBase + "/.edit";
      int fd = ::open(tmp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      if (fd >= 0) { if (::write(fd, e.arg.data(), e.arg.size()) < 0) {} ::close(fd); r = ::rename(tmp.c_str(), p.c_str()); }
    } else if (e.op == "append") {
      int fd = ::open(p.c_str(), O_APPEND | O_WRONLY);
      if (fd >= 0) { if (::write(fd, e.arg.data(), e.arg.size()) < 0) {} ::close(fd); } else r = -1;
    } else if (e.op == "truncate") r = ::truncate(p.c_str(), atol(e.arg.c_str()));
    else if (e.op == "delete") r = ::unlink(p.c_str());
    else if (e.op == "rmdir") { rmTree(p); }
    else if (e.op == "mkdir") r = ::mkdir(p.c_str(), 0755);
    else if (e.op == "rename") r = ::rename(p.c_str(), (tree + e.arg).c_str());
    else if (e.op == "symlink") { ::unlink(p.c_str()); r = ::symlink(e.arg.c_str(), p.c_str()); }
    editedAt[e.path] = SH->clock_us; if (e.op == "rename") editedAt[e.arg] = SH->clock_us;
    fire("edit:" + e.op);
    SH->trHash = hashS(e.op + e.path, SH->trHash ^ (u64)(r + 7));
  }
}
// The environment stops interfering: remaining edits happen now, no further fault fires.
// From now on faults fire; occurrences are counted from here.
void armFaults() { armed = true; for (auto &in : insts) { in.cnt.clear(); in.mallocs = 0; } }
void settle() { SH->steps += 1000000; stepCap += 1000000; applyEdits(); faults.clear(); fdCap = 0; }
static void trace(const char *site, const str &path, long nS, long nP, long size) {
  SH->trHash = hash64(site, strlen(site), hashS(path, SH->trHash ^ (u64)(cur->id + 1) ^ ((u64)size << 20)));
  if (SH->trN < TR_MAX && SH->poolLen + path.size() < POOL_MAX) {
    TrEv &e = SH->tr[SH->trN++];
    e.proc = cur->id; e.site = siteId(site); e.pathOff = SH->poolLen; e.pathLen = path.size(); e.nthSite = nS; e.nthPath = nP; e.size = size;
    memcpy(SH->pool + SH->poolLen, path.data(), path.size()); SH->poolLen += path.size();
  }
}
void seamPoint(const char *site, const str &path, long size) {
  Inst *me = cur;
  SH->steps++; SH->clock_us += 1 + (mix64(SH->steps ^ PL->seed) & 63); me->seams++;
  long nS = me->cnt[str("#") + site], nP = me->cnt[str("#") + site + "|" + path];
  me->cnt[str("#") + site]++; me->cnt[str("#") + site + "|" + path]++;
  trace(site, path, nS, nP, size);
  applyEdits();
  if ((long)SH->steps > stepCap) { SH->hang = 1; seamFinish(); _exit(0); }
  if (me->killAt >= 0 && me->seams > me->killAt && me->state == ST_READY) {
    fire("kill"); me->killAt = -1; procExit(137, ST_KILLED);
  }
  if (multi && !me->exiting) { int e = errno; swapcontext(&me->ctx, &schedCtx); errno = e; }
}
// The fault planned for the call the seam just announced, if any.
const Fault *faultAt(const char *site, const str &path) {
  if (!armed) return nullptr;
  long nS = cur->cnt[str("#") + site] - 1, nP = cur->cnt[str("#") + site + "|" + path] - 1;
  for (auto &f : faults) {
    if (f.first.proc >= 0 && f.first.proc != cur->id) continue;
    if (f.first.site != site) continue;
    if (f.first.path == "*") { if (f.first.nth >= 0 && f.first.nth != nS) continue; }
    else { if (f.first.path != path) continue; if (f.first.nth >= 0 && f.first.nth != nP) continue; }
    fire(f.first.site + ":" + f.first.act);
    SH->trHash = hashS(f.first.act, SH->trHash);
    return &f.first;
  }
  return nullptr;
}
static int errOf(const str &a) {
  static const std::map<str, int> m = {{"EIO", EIO}, {"EACCES", EACCES}, {"ENOENT", ENOENT}, {"EMFILE", EMFILE}, {"ENFILE", ENFILE},
    {"ENOSPC", ENOSPC}, {"EINTR", EINTR}, {"EROFS", EROFS}, {"ESPIPE", ESPIPE}, {"ENOMEM", ENOMEM}, {"EPIPE", EPIPE}, {"ECHILD", ECHILD}, {"EOVERFLOW", EOVERFLOW},
    {"ELOOP", ELOOP}, {"EDQUOT", EDQUOT}, {"ESTALE", ESTALE}, {"EAGAIN", EAGAIN}, {"ENOTDIR", ENOTDIR}, {"EPERM", EPERM}, {"ENAMETOOLONG", ENAMETOOLONG}};
  auto i = m.find(a); return i == m.end() ? 0 : i->second;
}
// Announce a call and return its injected error number (0: none).
static int point(const char *site, const str &path, const Fault **fo = nullptr, long size = 0) {
  seamPoint(site, path, size);
  const Fault *f = faultAt(site, path);
  if (fo) *fo = f;
  return f ? errOf(f->act) : 0;
}
static void flushOut(Inst *in) { if (in->out) fflush(in->out); }
void procExit(int code, int state) {
  Inst *me = cur;
  me->exiting = true;
  if (state == ST_EXIT || state == ST_DONE) {
    while (!me->atexits.empty()) { auto f = me->atexits.back(); me->atexits.pop_back(); f(); }
    flushOut(me);
  }
  me->state = state; me->code = code;
  SH->state[me->id] = state; SH->code[me->id] = code;
  swapcontext(&me->ctx, &schedCtx);
  abort();
}
bool schedStep() { // returns false when nothing is left to run
  std::vector<int> run;
  for (int i = 0; i < NPROC; i++) if (insts[i].state == ST_READY) run.push_back(i);
  if (run.empty()) return false;
  static int last = 0; static u64 rs = 0;
  size_t at = 0; // choice 0: the process that ran last, if it can still run
  for (size_t i = 0; i < run.size(); i++) if (run[i] == last) at = i;
  int choice = 0;
  static size_t ci = 0;
  if (run.size() > 1) {
    if (ci < PL->sched.size()) choice = PL->sched[ci] % run.size();
    else if (PL->k("schedseed")) {
      u64 r = mix64((u64)PL->k("schedseed") + ++rs);
      if ((long)(r % 100) >= PL->k("stick", 0)) choice = (r >> 20) % run.size();
    }
    ci++;
    if (SH->chosenN < 20000) SH->chosen[SH->chosenN++] = choice;
  }
  int next = run[(at + choice) % run.size()];
  if (next != last) SH->switches++;
  SH->schedHash = mix64(SH->schedHash ^ (u64)next);
  last = next;
  cur = &insts[next];
  SH->curProc = next; SH->curOp = cur->curOp;
  stdout = cur->out; stderr = cur->err;
  swapcontext(&schedCtx, &cur->ctx);
  cur = nullptr;
  return true;
}

// ---------------------------------------------------------------- memory
struct Blk { char *p; size_t size; int owner; bool live; long seq; };
struct Hdr { u64 magic; u32 idx, cls; u64 pad[2]; };
static char *arenaBase = (char *)0x200000000000ULL, *arenaTop; static const size_t ARENA = 6ULL << 30;
static std::vector<Blk> blks; static std::vector<std::deque<u32>> freeLists(64);
static long allocSeq; static str memError; static const u64 MAGIC = 0x05131a3a11c0ffeeULL; enum { RZ = 32 };
static void fillMem(char *p, size_t n, long seq) {
  long k = PL ? PL->k("fill") : 0;
  if (k == 0) memset(p, 0, n);
  else if (k == 1) memset(p, 0xff, n);
  else if (k == 2) memset(p, 'A', n);
  else if (k == 3) { static const char t[] = "/* -*- mode: ruby -*- */ <?php license GPL \n#include <vector>\n"; const size_t L = sizeof t - 1; size_t i = 0; for (; i < n && i < L; i++) p[i] = t[(i + seq) % L]; for (; i < n; ) { size_t m = i < n - i ? i : n - i; m = m > 4096 * L ? 4096 * L : m; memcpy(p + i, p, m); i += m; } }
  else if (k == 4) { memset(p, '\n', n); }
  else { u64 r = mix64(PL->seed + seq); size_t i = 0; for (; i + 8 <= n; i += 8) { r = r * 6364136223846793005ULL + 1442695040888963407ULL; memcpy(p + i, &r, 8); } for (; i < n; i++) p[i] = (char)(r >> (i & 31)); }
}
void arenaInit() {
  void *r = mmap(arenaBase, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r == MAP_FAILED) { r = mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); arenaBase = (char *)r; }
  if (r == MAP_FAILED) { perror("arena"); exit(3); }
  arenaTop = arenaBase;
}
static int clsOf(size_t n) { int c = 0; size_t s = 32; while (s < n) { s = (c & 1) ? s / 3 * 4 : s / 2 * 3; c++; } return c; }
static size_t clsSize(int c) { size_t s = 32; for (int i = 0; i < c; i++) s = (i & 1) ? s / 3 * 4 : s / 2 * 3; return s; }
static bool inArena(void *p) { return (char *)p >= arenaBase && (char *)p < arenaBase + ARENA; }
static void memFault(const str &what) { if (memError.empty()) { memError = what; obs("!mem", what); } }
static bool checkTail(const Blk &b) {
  for (int i = 0; i < RZ; i++) if ((unsigned char)b.p[b.size + i] != (unsigned char)(0xC3 ^ (i * 7))) return false;
  return true;
}
static void *arenaAlloc(size_t n) {
  if (n > (512u << 20)) { fire("malloc:toolarge"); errno = ENOMEM; return nullptr; }
  allocSeq++;
  size_t need = sizeof(Hdr) + n + RZ;
  int c = clsOf(need); u32 idx; auto &fl = freeLists[c]; long pol = PL->k("reuse");
  if (!fl.empty() && (pol == 0 || (pol == 1 && fl.size() > 8))) {
    if (pol == 0) { idx = fl.back(); fl.pop_back(); } else { idx = fl.front(); fl.pop_front(); }
  } else {
    size_t cs = (clsSize(c) + 63) & ~(size_t)63;
    if (arenaTop + cs > arenaBase + ARENA) { errno = ENOMEM; return nullptr; }
    idx = blks.size(); blks.push_back(Blk{arenaTop + sizeof(Hdr), 0, 0, false, 0}); arenaTop += cs;
  }
  Blk &b = blks[idx];
  Hdr *h = (Hdr *)(b.p - sizeof(Hdr)); h->magic = MAGIC; h->idx = idx; h->cls = c;
  b.size = n; b.owner = cur ? cur->id : -1; b.live = true; b.seq = allocSeq;
  fillMem((char *)h->pad, 16, allocSeq); if (PL->k("fill") == 3) ((char *)h->pad)[15] = '.';
  fillMem(b.p, n, allocSeq);
  for (int i = 0; i < RZ; i++) b.p[n + i] = (char)(0xC3 ^ (i * 7));
  if (cur) { cur->live++; cur->liveBytes += n; SH->mallocs[cur->id]++; }
  return b.p;
}
static Blk *blkOf(void *p) {
  Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
  if (h->magic != MAGIC || h->idx >= blks.size() || blks[h->idx].p != (char *)p) return nullptr;
  return &blks[h->idx];
}
static bool mallocFails() {
  if (!cur || !armed) return false;
  long n = cur->mallocs++;
  for (auto &f : faults) {
    if (f.first.site != "malloc" || (f.first.proc >= 0 && f.first.proc != cur->id)) continue;
    if (f.first.nth == n || (f.first.arg == 1 && n >= f.first.nth)) {
      fire(f.first.arg == 1 ? "malloc:fail-from" : "malloc:fail");
      SH->trHash = mix64(SH->trHash ^ 0x4d41); errno = ENOMEM; return true;
    }
  }
  return false;
}
void *seam_malloc(size_t n) {
  if (mallocFails()) return nullptr;
  return arenaAlloc(n);
}
void seam_free(void *p) {
  if (!p) return;
  if (!inArena(p)) { free(p); return; }
  Blk *b = blkOf(p);
  if (!b) { memFault("free of a pointer that is not an allocation, or its header was overwritten"); return; }
  if (!b->live) { memFault(strf("allocation of %zu bytes freed twice", b->size)); return; }
  if (!checkTail(*b)) memFault(strf("write past the end of an allocation of %zu bytes", b->size));
  b->live = false;
  if (b->owner >= 0) { insts[b->owner].live--; insts[b->owner].liveBytes -= b->size; }
  memset(b->p, 0xDD, b->size < 65536 ? b->size : 65536);
  Hdr *h = (Hdr *)(b->p - sizeof(Hdr));
  freeLists[h->cls].push_back(h->idx);
}
str arenaCheck() {
  if (memError.empty())
    for (auto &b : blks) if (b.live && !checkTail(b)) { memFault(strf("write past the end of an allocation of %zu bytes", b.size)); break; }
  return memError;
}
long arenaSeq() { return allocSeq; }
str arenaLive(int owner, long since) {
  str r; int n = 0;
  for (auto &b : blks) if (b.live && b.owner == owner && b.seq > since && n++ < 6) r += strf(" [%zu bytes%s]", b.size, "");
  return r;
}

extern "C" {
void *__wrap_malloc(size_t n) { return seam_malloc(n); }
void __wrap_free(void *p) { seam_free(p); }
void *__wrap_calloc(size_t a, size_t b) {
  if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; }
  void *p = seam_malloc(a * b); if (p) memset(p, 0, a * b); return p;
}
void *__wrap_realloc(void *p, size_t n) {
  if (!p) return seam_malloc(n);
  if (!inArena(p)) { void *q = seam_malloc(n); if (!q) return q; size_t m = malloc_usable_size(p); memcpy(q, p, m < n ? m : n); free(p); return q; } // (from a function of libc that allocates)
  Blk *b = blkOf(p);
  if (!b || !b->live) { memFault("realloc of a pointer that is not a live allocation"); return nullptr; }
  if (n == 0) { seam_free(p); return nullptr; }
  size_t old = b->size;
  Hdr *h = (Hdr *)(b->p - sizeof(Hdr));
  if (old > 2048 && (old > 32768 || allocSeq % 16) && n > old && sizeof(Hdr) + n + RZ <= clsSize(h->cls)) { // large blocks mostly grow in place where they can, small ones always move
    if (mallocFails()) return nullptr;
    if (!checkTail(*b)) memFault(strf("write past the end of an allocation of %zu bytes", b->size));
    fillMem(b->p + old, n - old, ++allocSeq); b->size = n; if (b->owner >= 0) insts[b->owner].liveBytes += n - old;
    for (int i = 0; i < RZ; i++) b->p[n + i] = (char)(0xC3 ^ (i * 7));
    return p;
  }
  void *q = seam_malloc(n);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  seam_free(p);
  return q;
}
void *__wrap_reallocarray(void *p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; } return __wrap_realloc(p, a * b); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)seam_malloc(n); if (p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)seam_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void *__wrap_memalign(size_t, size_t n) { return seam_malloc(n); }
void *__wrap_aligned_alloc(size_t, size_t n) { return seam_malloc(n); }
int __wrap_posix_memalign(void **o, size_t, size_t n) { void *p = seam_malloc(n); if (!p) return ENOMEM; *o = p; return 0; }
}

// ---------------------------------------------------------------- descriptors and streams
struct Stream { Inst *in; int fd; str path; bool isOut = false; int outNo = 0; bool noseek = false; u64 nread = 0; FILE *fp = nullptr;
  struct PipeRun *pipe = nullptr; bool writable = false; long wpos = 0; };
static std::unordered_map<FILE *, Stream *> streams;
static std::unordered_map<int, std::pair<Inst *, str>> fdInfo; // descriptors opened by simulated processes
static void fdAdd(int fd, const str &path) { if (cur) { cur->fds.insert(fd); fdInfo[fd] = {cur, path}; } }
static void fdDel(int fd) { auto i = fdInfo.find(fd); if (i != fdInfo.end()) { i->second.first->fds.erase(fd); fdInfo.erase(i); } }
static long fdCount(Inst *in) { return in->fds.size() + in->streams.size() + in->dirs.size() + in->pipes.size(); }
static bool fdLimit() { if (fdCap > 0 && armed && cur && fdCount(cur) >= fdCap) { fire("fdlimit:EMFILE"); return true; } return false; }
static str fdPath(int fd) { auto i = fdInfo.find(fd); return i == fdInfo.end() ? str("?") : i->second.second; }
static size_t chunkOf(size_t want, u64 n) {
  if (!chunkKnob || want <= 1) return want;
  u64 r = mix64(chunkKnob ^ (n * 77) ^ 5);
  size_t lo = want / 12 + 1;
  size_t c = lo + r % want;
  if (c < want) fire("read:short");
  return c < want ? c : want;
}
// reading with injected faults; shared by stream reads and read(2)
static ssize_t simRead(Stream *s, int fd, char *buf, size_t n, const str &path, u64 nread) {
  const Fault *f; int e = point("read", path, &f, n);
  if (f) {
    if (f->act == "eof") return 0;
    if (f->act == "short") { size_t k = f->arg < (long)n ? f->arg : n; if (k == 0) k = 1; return ::read(fd, buf, k < n ? k : n); }
    if (e) { errno = e; return -1; }
  }
  (void)s;
  return ::read(fd, buf, chunkOf(n, nread));
}
struct PipeRun { Inst *in; str cmd; bool started = false; str out; size_t pos = 0; int status = 0; u64 nread = 0; bool broken = false; str tool; long pct = 0; };
extern "C" void pipeStart(PipeRun *p);
static ssize_t cookieRead(void *c, char *buf, size_t n) {
  Stream *s = (Stream *)c;
  if (s->pipe) {
    PipeRun *p = s->pipe;
    const Fault *f; int e = point("pread", "", &f, n);
    pipeStart(p);
    if (f && f->act == "cut") { p->broken = true; p->out.resize(std::min(p->out.size(), p->pos + (size_t)f->arg)); p->status = 9; }
    else if (e) { errno = e; return -1; }
    size_t k = std::min(chunkOf(n, p->nread++), p->out.size() - p->pos);
    memcpy(buf, p->out.data() + p->pos, k); p->pos += k;
    return k;
  }
  return simRead(s, s->fd, buf, n, s->path, s->nread++);
}
static ssize_t outWrite(Inst *in, int no, const char *buf, size_t n) {
  str &b = no == 2 ? in->errbuf : in->outbuf;
  if (no == 2) { if (b.size() < 65536) b.append(buf, n); return n; }
  bool yieldable = cur == in;
  const Fault *hit = nullptr;
  if (yieldable) {
    seamPoint("stdout", "", n);
    for (auto &f : faults)
      if (f.first.site == "stdout" && (f.first.proc < 0 || f.first.proc == in->id) && in->outTotal + (long)n > f.first.arg &&
          !(f.first.nth == 0 && f.second)) { hit = &f.first; f.second = true; break; }
  }
  if (hit) {
    fire("stdout:" + hit->act);
    long room = hit->arg - in->outTotal; if (room < 0) room = 0;
    b.append(buf, room); in->outTotal += room;
    obsAs(in->id, -2, "!outfail", hit->act);
    errno = errOf(hit->act); return room > 0 ? room : -1;
  }
  b.append(buf, n); in->outTotal += n;
  return n;
}
static ssize_t cookieWrite(void *c, const char *buf, size_t n) {
  Stream *s = (Stream *)c;
  if (s->isOut) { ssize_t r = outWrite(s->in, s->outNo, buf, n); return r < 0 ? 0 : r; }
  const Fault *f; int e = point("write", s->path, &f, n);
  if (f && f->act == "short") { ssize_t r = ::write(s->fd, buf, std::min((size_t)f->arg, n)); errno = ENOSPC; return r; }
  if (e) { errno = e; return 0; }
  ssize_t r = ::write(s->fd, buf, n);
  return r < 0 ? 0 : r;
}
static int cookieSeek(void *c, off64_t *off, int whence) {
  Stream *s = (Stream *)c;
  if (s->isOut || s->pipe || s->noseek) { errno = ESPIPE; return -1; }
  const Fault *f; int e = point("seek", s->path, &f);
  if (e) { errno = e; return -1; }
  off64_t r = lseek64(s->fd, *off, whence);
  if (r < 0) return -1;
  *off = r; return 0;
}
// A close that fails has lost what was still buffered: all but arg percent of a temporary file.
static void loseData(int fd, const Fault *f) {
  struct stat st; int fl = fcntl(fd, F_GETFL);
  if (!f || f->arg >= 100 || (fl & O_ACCMODE) == O_RDONLY || fstat(fd, &st)) return;
  if (ftruncate(fd, st.st_size * f->arg / 100)) {}
  fire("closew:data-lost");
}
static int cookieClose(void *c) {
  Stream *s = (Stream *)c; int r = 0;
  if (!s->isOut && !s->pipe) {
    int e = 0; const Fault *f = nullptr;
    if (cur == s->in) e = point(s->writable ? "closew" : "close", s->path, &f);
    if (e) { loseData(s->fd, f); errno = e; r = -1; }
    ::close(s->fd);
  }
  s->in->streams.erase(s->fp); streams.erase(s->fp);
  delete s; return r;
}
static FILE *makeStream(Stream *s, const char *mode) {
  cookie_io_functions_t io = {cookieRead, cookieWrite, cookieSeek, cookieClose};
  FILE *f = fopencookie(s, mode, io);
  s->fp = f; streams[f] = s; s->in->streams.insert(f);
  return f;
}
// A file below the temporary directory is about to be opened for writing, removed or renamed.
static void guardTemp(const str &rel, const char *what, bool append) {
  auto i = tempOwner.find(rel);
  if (i == tempOwner.end()) { obs("~tmpname", rel); return; } // (nothing there this time: a later plan puts something there)
  if (i->second == -1) interfere(strf("%s (left behind by an earlier process):", what), rel);
  else if (i->second != cur->id) interfere(strf("%s (process %d's, by process %d):", what, i->second, cur->id), rel);
}
static int openTracked(const char *path, int flags, mode_t mode) {
  str m = mapPath(path), rel; bool temp = isTemp(m, rel);
  bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (wr && !isDevice(m)) {
    if (!temp) { footprint("opened for writing:", path); errno = EROFS; return -1; }
    bool existed = ::access(m.c_str(), F_OK) == 0;
    if (existed && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (existed) guardTemp(rel, "opened for writing", flags & O_APPEND);
    if (wr && !existed) {
      int fd = ::open(m.c_str(), flags & ~O_NOFOLLOW, mode);
      if (fd >= 0) { tempOwner[rel] = cur->id; cur->temps.insert(rel); obs("~tmpname", rel); }
      return fd;
    }
  }
  struct stat st;
  if (PL->k("user") && !isDevice(m) && ::stat(m.c_str(), &st) == 0 && !S_ISDIR(st.st_mode) && !(st.st_mode & (wr ? 0200 : 0400))) { fire("open:not-permitted"); errno = EACCES; return -1; }
  if (!wr && ::stat(m.c_str(), &st) == 0 && S_ISFIFO(st.st_mode)) { // a pipe: its data waits in a side file
    str side = simBase + "/P/" + strf("%016llx", (unsigned long long)hashS(norm(path)));
    int fd = ::open(side.c_str(), O_RDONLY);
    return fd;
  }
  return ::open(m.c_str(), flags, mode);
}
static bool isPipePath(const char *path) { struct stat st; return ::stat(mapPath(path).c_str(), &st) == 0 && S_ISFIFO(st.st_mode); }

extern "C" {
FILE *__wrap_fopen(const char *path, const char *mode) {
  bool wr = strpbrk(mode, "wa+") != nullptr; str n = norm(path);
  const Fault *f; int e = point(wr ? "openw" : "open", n, &f);
  if (e) { errno = e; return nullptr; }
  if (fdLimit()) { errno = EMFILE; return nullptr; }
  int fl = strchr(mode, '+') ? O_RDWR : (mode[0] == 'r' ? O_RDONLY : O_WRONLY);
  if (mode[0] == 'w') fl |= O_CREAT | O_TRUNC;
  if (mode[0] == 'a') fl |= O_CREAT | O_APPEND;
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = openTracked(path, fl, 0666);
  if (fd < 0) return nullptr;
  Stream *s = new Stream{cur, fd, n}; s->noseek = isPipePath(path); s->writable = wr;
  return makeStream(s, mode);
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
FILE *__wrap_freopen(const char *, const char *, FILE *) { errno = ENOSYS; return nullptr; }
FILE *__wrap_fdopen(int fd, const char *mode) {
  str n = fdPath(fd); Stream *s = new Stream{cur, fd, n}; s->writable = strpbrk(mode, "wa+");
  fdDel(fd);
  return makeStream(s, mode);
}
int __wrap_fclose(FILE *f) {
  if (!f) raise(SIGSEGV);
  if (f == cur->out || f == cur->err) { fflush(f); return ferror(f) ? EOF : 0; }
  if (!streams.count(f)) { memFault("fclose of a stream that is not open"); return EOF; }
  if (streams[f]->pipe) { PipeRun *p = streams[f]->pipe; cur->pipes.erase(f); cur->unreaped++; int r = fclose(f); delete p; return r; }
  return fclose(f);
}
int __wrap_fileno(FILE *f) {
  if (f == cur->out) return 1; if (f == cur->err) return 2;
  auto i = streams.find(f); return i == streams.end() ? fileno(f) : i->second->fd;
}
int __wrap_open(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
  bool wr = (flags & O_ACCMODE) != O_RDONLY; str n = norm(path);
  const Fault *f; int e = point(wr ? "openw" : "open", n, &f);
  if (e) { errno = e; return -1; }
  if (fdLimit()) { errno = EMFILE; return -1; }
  int fd = openTracked(path, flags, mode);
  if (fd >= 0) fdAdd(fd, n);
  return fd;
}
int __wrap_open64(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
  return __wrap_open(path, flags, mode);
}
int __wrap_creat(const char *p, mode_t m) { return __wrap_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __wrap_openat(int dfd, const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
  if (dfd == AT_FDCWD || path[0] == '/') return __wrap_open(path, flags, mode);
  if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) { footprint("openat for writing:", path); errno = EROFS; return -1; }
  str n = fdPath(dfd) + "/" + path;
  const Fault *f; int e = point("open", n, &f); if (e) { errno = e; return -1; }
  if (fdLimit()) { errno = EMFILE; return -1; }
  int fd = ::openat(dfd, path, flags); if (fd >= 0) fdAdd(fd, n); return fd;
}
ssize_t __wrap_read(int fd, void *b, size_t n) { return simRead(nullptr, fd, (char *)b, n, fdPath(fd), cur->seams); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) {
  const Fault *f; int e = point("read", fdPath(fd), &f, n);
  if (f && f->act == "eof") return 0; if (e) { errno = e; return -1; }
  return ::pread(fd, b, chunkOf(n, cur->seams), o);
}
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
ssize_t __wrap_readv(int fd, const struct iovec *v, int c) { return c > 0 ? __wrap_read(fd, v[0].iov_base, v[0].iov_len) : 0; }
ssize_t __wrap_write(int fd, const void *b, size_t n) {
  if (fd == 1) return outWrite(cur, 1, (const char *)b, chunkOf(n, cur->seams)); // (a stream goes on after a short write by itself)
  if (fd == 2) return outWrite(cur, 2, (const char *)b, n);
  const Fault *f; int e = point("write", fdPath(fd), &f, n);
  if (f && f->act == "short") return ::write(fd, b, std::min((size_t)f->arg, n));
  if (e) { errno = e; return -1; }
  if (fd >= 0 && !fdInfo.count(fd)) { errno = EBADF; return -1; }
  return ::write(fd, b, n);
}
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) {
  const Fault *f; int e = point("write", fdPath(fd), &f, n); if (e) { errno = e; return -1; }
  if (!fdInfo.count(fd)) { errno = EBADF; return -1; }
  return ::pwrite(fd, b, n, o);
}
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) { return c > 0 ? __wrap_write(fd, v[0].iov_base, v[0].iov_len) : 0; }
int __wrap_vdprintf(int fd, const char *fmt, va_list ap) {
  char *b = nullptr; int n = vasprintf(&b, fmt, ap); if (n < 0) return n;
  ssize_t w = 0; for (ssize_t o = 0; o < n; o += w) { w = __wrap_write(fd, b + o, n - o); if (w < 0) break; }
  free(b); return w < 0 ? -1 : n;
}
int __wrap_dprintf(int fd, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = __wrap_vdprintf(fd, fmt, ap); va_end(ap); return r; }
int __wrap_close(int fd) {
  if (fd < 0) { errno = EBADF; return -1; }
  if (fd == 1 || fd == 2) return 0;
  if (!fdInfo.count(fd)) { if (fd > 2) memFault("close of a descriptor that is not open"); errno = EBADF; return -1; }
  const Fault *f; int e = point("closew", fdPath(fd), &f);
  if (e) loseData(fd, f);
  fdDel(fd); ::close(fd);
  if (e) { errno = e; return -1; }
  return 0;
}
off_t __wrap_lseek(int fd, off_t o, int w) { const Fault *f; int e = point("seek", fdPath(fd), &f); if (e) { errno = e; return -1; } return ::lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }
int __wrap_dup(int fd) { int e = point("dup", fdPath(fd)); if (e) { errno = e; return -1; } int r = ::dup(fd); if (r >= 0) fdAdd(r, fdPath(fd)); return r; }
int __wrap_dup2(int, int) { errno = EBADF; return -1; }
int __wrap_fsync(int fd) { const Fault *f; int e = point("fsync", fdPath(fd), &f); if (e) { errno = e; return -1; } return 0; }
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_ftruncate(int fd, off_t l) { int e = point("truncate", fdPath(fd)); if (e) { errno = e; return -1; } if (!fdInfo.count(fd)) { errno = EBADF; return -1; } return ::ftruncate(fd, l); }
int __wrap_truncate(const char *p, off_t l) {
  str m = mapPath(p), rel; if (!isTemp(m, rel)) { footprint("truncated:", p); errno = EROFS; return -1; }
  guardTemp(rel, "truncated", false); return ::truncate(m.c_str(), l);
}
// A look at a path that succeeds after one that failed (the program tried again) is recorded.
static std::set<std::pair<int, str>> lookFailed;
static void lookFail(const char *kind, const str &n) { lookFailed.insert({cur->id, n}); obs(kind, n); }
static void lookOk(const str &n) { if (lookFailed.size() && lookFailed.count({cur->id, n})) obs("~lookok", n); }
// Times of files follow the simulated clock: old ones in the tree and among the leftovers, recent ones where something changed.
static void simTimes(const str &m, struct stat *st) {
  u64 t0 = 1700000000ULL + PL->k("clock"), s = t0, us = 0; str rel;
  if (isTemp(m, rel)) { auto i = tempOwner.find(rel); static const u64 ages[] = {0, 40, 4000, 90000, 8000000}; if (i != tempOwner.end() && i->second == -1) s = t0 - ages[hashS(rel) % 5]; else us = SH->clock_us; }
  else { str tree = simBase + "/tree/"; str q = m.compare(0, tree.size(), tree) == 0 ? m.substr(tree.size()) : m; while (q.compare(0, 2, "./") == 0) q = q.substr(2); auto i = editedAt.find(q); if (i != editedAt.end()) us = i->second; else s = t0 - 100 - hashS(q) % 5000000; }
  s += us / 1000000; st->st_mtim.tv_sec = st->st_ctim.tv_sec = st->st_atim.tv_sec = s; st->st_mtim.tv_nsec = st->st_ctim.tv_nsec = st->st_atim.tv_nsec = us % 1000000 * 1000;
}
static int simStat(const char *p, struct stat *st, bool link) {
  str n = norm(p); const Fault *f; int e = point("lstat", n, &f);
  if (e) { lookFail("~statfail", n); errno = e; return -1; }
  str m = mapPath(p);
  int r = link ? ::lstat(m.c_str(), st) : ::stat(m.c_str(), st);
  if (r && errno == ENAMETOOLONG) { lookFail("~statfail", n); errno = ENAMETOOLONG; }
  if (!r) lookOk(n), simTimes(m, st);
  return r;
}
int __wrap_stat(const char *p, struct stat *st) { return simStat(p, st, false); }
int __wrap_lstat(const char *p, struct stat *st) { return simStat(p, st, true); }
int __wrap_stat64(const char *p, struct stat64 *st) { return simStat(p, (struct stat *)st, false); }
int __wrap_lstat64(const char *p, struct stat64 *st) { return simStat(p, (struct stat *)st, true); }
int __wrap___xstat(int, const char *p, struct stat *st) { return simStat(p, st, false); }
int __wrap___lxstat(int, const char *p, struct stat *st) { return simStat(p, st, true); }
int __wrap_fstat(int fd, struct stat *st) { const Fault *f; int e = point("fstat", fdPath(fd), &f); if (e) { errno = e; return -1; } int r = ::fstat(fd, st); if (!r) simTimes(fdPath(fd) == "(temp)" ? simBase + "/T/(temp)" : fdPath(fd), st); return r; }
int __wrap_fstat64(int fd, struct stat64 *st) { return __wrap_fstat(fd, (struct stat *)st); }
int __wrap___fxstat(int, int fd, struct stat *st) { return __wrap_fstat(fd, st); }
static str dirfdPath(int fd);
int __wrap_fstatat(int dfd, const char *p, struct stat *st, int fl) {
  if (dfd == AT_FDCWD || p[0] == '/') return simStat(p, st, fl & AT_SYMLINK_NOFOLLOW);
  str base = dirfdPath(dfd); if (base.empty()) base = fdPath(dfd);
  str n = base + "/" + p; const Fault *f; int e = point("lstat", n, &f); if (e) { lookFail("~statfail", n); errno = e; return -1; }
  int r = ::fstatat(dfd, p, st, fl); if (!r) lookOk(n), simTimes(n, st); return r;
}
int __wrap_fstatat64(int d, const char *p, struct stat64 *st, int fl) { return __wrap_fstatat(d, p, (struct stat *)st, fl); }
int __wrap_statx(int, const char *, int, unsigned, void *) { errno = ENOSYS; return -1; }
int __wrap_access(const char *p, int m) { str n = norm(p); const Fault *f; int e = point("access", n, &f); if (e) { lookFail("~statfail", n); errno = e; return -1; } return ::access(mapPath(p).c_str(), m); }
int __wrap_faccessat(int d, const char *p, int m, int fl) { if (d == AT_FDCWD) return __wrap_access(p, m); return ::faccessat(d, p, m, fl); }
ssize_t __wrap_readlink(const char *p, char *b, size_t n) { int e = point("readlink", norm(p)); if (e) { lookFail("~statfail", norm(p)); errno = e; return -1; } return ::readlink(mapPath(p).c_str(), b, n); }
char *__wrap_realpath(const char *p, char *o) { int e = point("readlink", norm(p)); if (e) { lookFail("~statfail", norm(p)); errno = e; return nullptr; } return ::realpath(mapPath(p).c_str(), o); }

// ---------------------------------------------------------------- directories
struct SDir { Inst *in; str path; std::vector<struct dirent> ents; size_t i = 0; struct dirent buf; int fd = -1; bool dead = false; };
static std::set<SDir *> dirsOpen;
static str dirfdPath(int fd) { for (auto d : dirsOpen) if (d->fd == fd) return d->path; return ""; }
static DIR *openDirAt(int fd, const str &n) {
  DIR *d = ::fdopendir(fd); if (!d) { ::close(fd); return nullptr; }
  SDir *s = new SDir; s->in = cur; s->path = n; s->fd = ::dup(fd);
  while (struct dirent *e = ::readdir(d)) { struct dirent c; memset(&c, 0, sizeof c); memcpy(&c, e, e->d_reclen < sizeof c ? e->d_reclen : sizeof c); s->ents.push_back(c); }
  ::closedir(d);
  std::sort(s->ents.begin(), s->ents.end(), [](const struct dirent &a, const struct dirent &b) { return strcmp(a.d_name, b.d_name) < 0; });
  if (orderSeed) {
    Rng r(hashS(n, orderSeed)); r.shuffle(s->ents); fire("order:shuffled");
    long dt = PL->k("dtype");
    for (auto &e : s->ents) { e.d_ino = 1 + r.below(1000000); e.d_off = r.below(1 << 30); if (dt == 1 || (dt == 2 && r.pct(50))) e.d_type = DT_UNKNOWN; }
  } else for (size_t i = 0; i < s->ents.size(); i++) { s->ents[i].d_ino = i + 1; s->ents[i].d_off = i + 1; }
  dirsOpen.insert(s); cur->dirs.insert(s);
  return (DIR *)s;
}
DIR *__wrap_opendir(const char *p) {
  str n = norm(p); const Fault *f; int e = point("opendir", n, &f);
  if (!e && fdLimit()) e = EMFILE;
  if (e) { lookFail("~dirfail", n); errno = e; return nullptr; }
  int fd = ::open(mapPath(p).c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  if (fd < 0) { if (errno == ENAMETOOLONG) { lookFail("~dirfail", n); errno = ENAMETOOLONG; } return nullptr; }
  lookOk(n); return openDirAt(fd, n);
}
DIR *__wrap_fdopendir(int fd) {
  str n = fdPath(fd); const Fault *f; int e = point("opendir", n, &f);
  if (e) { lookFail("~dirfail", n); errno = e; return nullptr; }
  fdDel(fd); lookOk(n); return openDirAt(fd, n);
}
struct dirent *__wrap_readdir(DIR *dp) {
  SDir *d = (SDir *)dp;
  if (!d) raise(SIGSEGV);
  if (!dirsOpen.count(d)) { memFault("readdir of a directory that is not open"); return nullptr; }
  const Fault *f; int e = point("readdir", d->path, &f);
  if (d->dead) e = e ? e : EIO;
  if (e) { // what lies behind the failure: all entries not returned so far
    if (!d->dead) { str t = esc(d->path); for (size_t i = 0; i < d->i && i < d->ents.size(); i++) t += " " + esc(d->ents[i].d_name); obs("~dircut", t); lookFailed.insert({cur->id, d->path}); }
    d->dead = true; errno = e; return nullptr;
  }
  if (d->i >= d->ents.size()) return nullptr;
  memset(&d->buf, 0x7e, sizeof d->buf);
  d->buf = d->ents[d->i++];
  return &d->buf;
}
struct dirent64 *__wrap_readdir64(DIR *d) { return (struct dirent64 *)__wrap_readdir(d); }
int __wrap_readdir_r(DIR *d, struct dirent *e, struct dirent **r) { struct dirent *x = __wrap_readdir(d); if (x) { *e = *x; *r = e; } else *r = nullptr; return 0; }
int __wrap_closedir(DIR *dp) {
  SDir *d = (SDir *)dp; if (!d) raise(SIGSEGV);
  if (!dirsOpen.count(d)) { memFault("closedir of a directory that is not open"); errno = EBADF; return -1; }
  point("closedir", d->path);
  dirsOpen.erase(d); d->in->dirs.erase(d); if (d->fd >= 0) ::close(d->fd);
  memset(&d->buf, 0x7e, sizeof d->buf); // what readdir returned is gone
  return 0;                              // the object itself is kept so that stale pointers read scribbled memory
}
void __wrap_rewinddir(DIR *d) { ((SDir *)d)->i = 0; }
int __wrap_dirfd(DIR *d) { return ((SDir *)d)->fd; }
long __wrap_telldir(DIR *d) { return ((SDir *)d)->i; }
void __wrap_seekdir(DIR *d, long l) { ((SDir *)d)->i = l; }
int __wrap_scandir(const char *p, struct dirent ***out, int (*sel)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **)) {
  DIR *d = __wrap_opendir(p); if (!d) return -1;
  std::vector<struct dirent *> v;
  while (struct dirent *e = __wrap_readdir(d)) if (!sel || sel(e)) { struct dirent *c = (struct dirent *)seam_malloc(sizeof *c); *c = *e; v.push_back(c); }
  if (((SDir *)d)->dead) { __wrap_closedir(d); for (auto x : v) seam_free(x); return -1; }
  __wrap_closedir(d);
  struct dirent **a = (struct dirent **)seam_malloc((v.size() + 1) * sizeof *a);
  for (size_t i = 0; i < v.size(); i++) a[i] = v[i];
  if (cmp) qsort(a, v.size(), sizeof *a, (int (*)(const void *, const void *))cmp);
  *out = a; return v.size();
}

// ---------------------------------------------------------------- temporary files, removal, other file system changes
static str tempName(int n) { // a small name space, so that collisions and stale names are met
  u64 v = mix64(nameCounter++ ^ (u64)PL->k("nameseed") ^ ((u64)cur->id << 8)) % nameSpace;
  static const char cs[] = "abcdefghijkmnopqrstuvwxyzABCDEF0";
  str r; for (int i = 0; i < n; i++) { r += cs[v % 32]; v /= 32; }
  return r;
}
static int mkTemp(char *tmpl, int suffix, int flags) {
  size_t l = strlen(tmpl); char *x = tmpl + l - 6 - suffix;
  if ((long)l < 6 + suffix || strncmp(x, "XXXXXX", 6)) { errno = EINVAL; return -1; }
  for (int t = 0; t < 100000; t++) {
    str c = tempName(6); memcpy(x, c.data(), 6);
    str m = mapPath(tmpl), rel;
    if (!isTemp(m, rel)) { footprint("temporary file outside the temporary directory:", tmpl); errno = EROFS; return -1; }
    int fd = ::open(m.c_str(), O_RDWR | O_CREAT | O_EXCL | (flags & (O_APPEND | O_CLOEXEC)), 0600);
    if (fd >= 0) { tempOwner[rel] = cur->id; cur->temps.insert(rel); obs("~tmpname", rel); return fd; }
    if (errno != EEXIST) return -1;
    fire("mkstemp:name-taken");
    if (t > nameSpace * 20) nameSpace *= 32;
  }
  errno = EEXIST; return -1;
}
int __wrap_mkstemp(char *t) {
  const Fault *f; int e = point("mkstemp", "", &f); if (e) { errno = e; return -1; }
  if (fdLimit()) { errno = EMFILE; return -1; }
  int fd = mkTemp(t, 0, 0); if (fd >= 0) fdAdd(fd, "(temp)"); return fd;
}
int __wrap_mkstemp64(char *t) { return __wrap_mkstemp(t); }
int __wrap_mkostemp(char *t, int fl) {
  const Fault *f; int e = point("mkstemp", "", &f); if (e) { errno = e; return -1; }
  int fd = mkTemp(t, 0, fl); if (fd >= 0) fdAdd(fd, "(temp)"); return fd;
}
int __wrap_mkstemps(char *t, int s) {
  const Fault *f; int e = point("mkstemp", "", &f); if (e) { errno = e; return -1; }
  int fd = mkTemp(t, s, 0); if (fd >= 0) fdAdd(fd, "(temp)"); return fd;
}
char *__wrap_mktemp(char *t) { // a name that is free now
  point("mktemp", ""); size_t l = strlen(t); if (l < 6) { *t = 0; return t; }
  for (int i = 0; i < 1000; i++) { str c = tempName(6); memcpy(t + l - 6, c.data(), 6); if (::access(mapPath(t).c_str(), F_OK)) return t; }
  *t = 0; return t;
}
char *__wrap_mkdtemp(char *t) {
  const Fault *f; int e = point("mkstemp", "", &f); if (e) { errno = e; return nullptr; }
  size_t l = strlen(t); if (l < 6) return nullptr;
  for (int i = 0; i < 1000; i++) {
    str c = tempName(6); memcpy(t + l - 6, c.data(), 6); str m = mapPath(t), rel;
    if (!isTemp(m, rel)) { footprint("temporary directory outside:", t); errno = EROFS; return nullptr; }
    if (!::mkdir(m.c_str(), 0700)) { tempOwner[rel] = cur->id; cur->temps.insert(rel); return t; }
  }
  return nullptr;
}
char *__wrap_tmpnam(char *b) { static char s[64]; if (!b) b = s; point("mktemp", ""); for (int i = 0; i < 1000; i++) { snprintf(b, 20, "/tmp/file%s", tempName(6).c_str()); if (::access(mapPath(b).c_str(), F_OK)) return b; } return nullptr; }
char *__wrap_tempnam(const char *, const char *pfx) {
  point("mktemp", ""); for (int i = 0; i < 1000; i++) { str n = str("/tmp/") + (pfx ? str(pfx).substr(0, 5) : str("file")) + tempName(6); if (::access(mapPath(n.c_str()).c_str(), F_OK)) return __wrap_strdup(n.c_str()); } return nullptr;
}
FILE *__wrap_tmpfile(void) {
  const Fault *f; int e = point("mkstemp", "", &f); if (e) { errno = e; return nullptr; }
  int fd = memfd_create("tmpfile", 0); Stream *s = new Stream{cur, fd, "(temp)"}; s->writable = true; return makeStream(s, "w+");
}
static int removeTracked(const char *p, const char *what, bool dir) {
  str m = mapPath(p), rel;
  if (!isTemp(m, rel)) { footprint(str(what) + ":", p); errno = EROFS; return -1; }
  guardTemp(rel, what, false);
  int r = dir ? ::rmdir(m.c_str()) : ::unlink(m.c_str());
  if (r == 0) { auto i = tempOwner.find(rel); if (i != tempOwner.end()) { if (i->second >= 0) insts[i->second].temps.erase(rel); tempOwner.erase(i); } }
  return r;
}
int __wrap_unlink(const char *p) {
  const Fault *f; int e = point("unlink", "", &f);
  if (e) { str rel; if (isTemp(mapPath(p), rel)) { obs("~unlinkfail", rel); } errno = e; return -1; }
  return removeTracked(p, "removed", false);
}
int __wrap_remove(const char *p) { const Fault *f; int e = point("unlink", "", &f); if (e) { str rel; if (isTemp(mapPath(p), rel)) obs("~unlinkfail", rel); errno = e; return -1; }
  struct stat st; return removeTracked(p, "removed", ::lstat(mapPath(p).c_str(), &st) == 0 && S_ISDIR(st.st_mode)); }
int __wrap_rmdir(const char *p) { point("unlink", ""); return removeTracked(p, "removed", true); }
int __wrap_unlinkat(int d, const char *p, int fl) { if (d == AT_FDCWD || p[0] == '/') { point("unlink", ""); return removeTracked(p, "removed", fl & AT_REMOVEDIR); } footprint("removed:", p); errno = EROFS; return -1; }
int __wrap_rename(const char *a, const char *b) {
  int e = point("rename", norm(a)); if (e) { errno = e; return -1; } str ma = mapPath(a), mb = mapPath(b), ra, rb;
  if (!isTemp(ma, ra) || !isTemp(mb, rb)) { footprint("renamed:", a); errno = EROFS; return -1; }
  guardTemp(ra, "renamed", false); guardTemp(rb, "replaced", false);
  int r = ::rename(ma.c_str(), mb.c_str()); if (!r) { tempOwner.erase(ra); cur->temps.erase(ra); tempOwner[rb] = cur->id; cur->temps.insert(rb); } return r;
}
int __wrap_renameat(int, const char *a, int, const char *) { footprint("renamed:", a); errno = EROFS; return -1; }
int __wrap_mkdir(const char *p, mode_t m) {
  int e = point("mkdir", norm(p)); if (e) { errno = e; return -1; } str mp = mapPath(p), rel; if (!isTemp(mp, rel)) { footprint("directory created:", p); errno = EROFS; return -1; }
  int r = ::mkdir(mp.c_str(), m); if (!r) { tempOwner[rel] = cur->id; cur->temps.insert(rel); } return r;
}
int __wrap_mkdirat(int, const char *p, mode_t) { footprint("directory created:", p); errno = EROFS; return -1; }
int __wrap_link(const char *a, const char *) { footprint("linked:", a); errno = EROFS; return -1; }
int __wrap_symlink(const char *, const char *b) { footprint("symbolic link created:", b); errno = EROFS; return -1; }
int __wrap_chmod(const char *p, mode_t m) { str mp = mapPath(p), rel; if (!isTemp(mp, rel)) { footprint("mode changed:", p); errno = EROFS; return -1; } guardTemp(rel, "mode changed", false); return ::chmod(mp.c_str(), m); }
int __wrap_fchmod(int fd, mode_t m) { if (!fdInfo.count(fd)) { errno = EBADF; return -1; } if (fdPath(fd) != "(temp)") { footprint("mode changed:", fdPath(fd).c_str()); errno = EROFS; return -1; } return ::fchmod(fd, m); }
int __wrap_chown(const char *p, uid_t, gid_t) { footprint("owner changed:", p); errno = EROFS; return -1; }
int __wrap_utime(const char *p, const void *) { footprint("times changed:", p); errno = EROFS; return -1; }
int __wrap_utimes(const char *p, const void *) { footprint("times changed:", p); errno = EROFS; return -1; }
int __wrap_utimensat(int, const char *p, const void *, int) { footprint("times changed:", p); errno = EROFS; return -1; }
int __wrap_futimens(int fd, const void *) { footprint("times changed:", fdPath(fd).c_str()); errno = EROFS; return -1; }
int __wrap_futimes(int fd, const void *) { footprint("times changed:", fdPath(fd).c_str()); errno = EROFS; return -1; }
int __wrap_futimesat(int, const char *p, const void *) { footprint("times changed:", p); errno = EROFS; return -1; }
int __wrap_lutimes(const char *p, const void *) { footprint("times changed:", p); errno = EROFS; return -1; }
int __wrap_setxattr(const char *p, const char *, const void *, size_t, int) { footprint("attribute set:", p); errno = EROFS; return -1; }
int __wrap_lsetxattr(const char *p, const char *, const void *, size_t, int) { footprint("attribute set:", p); errno = EROFS; return -1; }
int __wrap_fsetxattr(int fd, const char *, const void *, size_t, int) { footprint("attribute set:", fdPath(fd).c_str()); errno = EROFS; return -1; }
int __wrap_fchmodat(int, const char *p, mode_t m, int) { return __wrap_chmod(p, m); }
int __wrap_lchown(const char *p, uid_t, gid_t) { footprint("owner changed:", p); errno = EROFS; return -1; }
int __wrap_fchown(int fd, uid_t, gid_t) { footprint("owner changed:", fdPath(fd).c_str()); errno = EROFS; return -1; }
int __wrap_fchownat(int, const char *p, uid_t, gid_t, int) { footprint("owner changed:", p); errno = EROFS; return -1; }
int __wrap_linkat(int, const char *a, int, const char *, int) { footprint("linked:", a); errno = EROFS; return -1; }
int __wrap_symlinkat(const char *, int, const char *b) { footprint("symbolic link created:", b); errno = EROFS; return -1; }
int __wrap_renameat2(int, const char *a, int, const char *, unsigned) { footprint("renamed:", a); errno = EROFS; return -1; }
int __wrap_mkfifo(const char *p, mode_t) { footprint("pipe created:", p); errno = EROFS; return -1; }
int __wrap_mknod(const char *p, mode_t, dev_t) { footprint("node created:", p); errno = EROFS; return -1; }
int __wrap_chdir(const char *p) { footprint("working directory changed to", p); errno = EACCES; return -1; }
int __wrap_fchdir(int) { footprint("working directory changed", "?"); errno = EACCES; return -1; }
char *__wrap_getcwd(char *b, size_t n) { int e = point("getcwd", ""); if (e) { errno = e; return nullptr; } return ::getcwd(b, n); }

// ---------------------------------------------------------------- child processes
static const str &toolDir() { static str d; if (d.empty()) { char b[4096]; ssize_t n = ::readlink("/proc/self/exe", b, sizeof b); d.assign(b, n > 0 ? n : 0); d = d.substr(0, d.rfind('/')) + "/tools"; } return d; }
// The comparison tool and simple tools, on temporary files only: every word that is not an option, a number or a status
// has to name something below the temporary directory.
static bool cmdAllowed(const str &c, bool &changes) {
  static const std::set<str> tools = {"diff", "/usr/bin/diff", "cmp", "rm", "cat", "sort", "uniq", "comm", "mv", "cp", "head", "tail", "wc", "touch", "exec", "env", "exit", "true", "false", "LC_ALL=C", "s=$?", "r=$?", "rc=$?", "st=$?", "ret=$?", "$s", "$r", "$rc", "$st", "$ret", "$?", "test", "grep", "/dev/null"};
  static const std::set<str> quiet = {"diff", "/usr/bin/diff", "cmp", "exec", "env", "LC_ALL=C", "/dev/null"};
  str s; for (size_t i = 0; i < c.size(); i++) {
    if (c.compare(i, 4, "2>&1") == 0 || c.compare(i, 4, "1>&2") == 0) { i += 3; continue; }
    if (c[i] == '`' || c[i] == '\\' || c[i] == '\n' || c.compare(i, 2, "$(") == 0) return false;
    if (strchr(";|&()<>", c[i])) { if (c[i] == '>' || c[i] == '|' || c[i] == ';' || c[i] == '&') changes |= c[i] != '>' || c.compare(i, 11, ">/dev/null") ; s += ' '; } else if (c[i] == '\'' || c[i] == '"') s += ""; else s += c[i];
  }
  int tool = 0;
  for (auto &w : split(s, ' ')) {
    if (w.empty()) continue;
    if (tools.count(w)) { tool++; if (!quiet.count(w)) changes = true; continue; }
    if (w[0] == '-' || w.find_first_not_of("0123456789") == str::npos) { if (w.find('/') != str::npos) return false; continue; }
    if (w.compare(0, 5, "/tmp/") || w.size() == 5 || w.find("..") != str::npos || w.find('$') != str::npos || w.find('~') != str::npos) return false;
    for (char x : w.substr(5)) if (x == '/') return false;
  }
  return tool > 0;
}
static std::map<str, str> tempState() { // what lies in the temporary directory
  std::map<str, str> m; str t = simBase + "/T"; DIR *d = ::opendir(t.c_str()); if (!d) return m;
  while (struct dirent *e = ::readdir(d)) { str n = e->d_name; if (n == "." || n == "..") continue; struct stat st; if (::lstat((t + "/" + n).c_str(), &st)) continue; m[n] = strf("%lu %ld %ld.%09ld", (unsigned long)st.st_ino, (long)st.st_size, (long)st.st_mtim.tv_sec, (long)st.st_mtim.tv_nsec); }
  ::closedir(d); return m;
}
void pipeStart(PipeRun *p) {
  if (p->started) return;
  p->started = true;
  if (p->broken) return;
  bool changes = false; if (!cmdAllowed(p->cmd, changes)) { obs("!foot", "command started: " + p->cmd); p->status = 127 << 8; return; }
  str cmd = p->cmd, t = simBase + "/T/"; size_t at = 0;
  while ((at = cmd.find("/tmp/", at)) != str::npos) { if (at && (isalnum(cmd[at - 1]))) { at += 5; continue; } cmd.replace(at, 5, t); at += t.size(); }
  // a tool that fails is a stand-in found first on the path, so that what the rest of the command makes of it is real
  str path = "PATH=/usr/bin:/bin", tool = "OSIM_TOOL=" + p->tool, pct = strf("OSIM_PCT=%ld", p->pct);
  if (p->tool.size()) { for (auto x : {"/usr/bin/diff", "/bin/diff", "/usr/bin/cmp"}) { size_t b = cmd.find(x); if (b != str::npos) cmd.erase(b, strrchr(x, '/') - x + 1); } path = "PATH=" + toolDir() + ":/usr/bin:/bin"; }
  std::map<str, str> before; if (changes) before = tempState();
  int pp[2]; if (pipe2(pp, O_CLOEXEC)) { p->status = 127 << 8; return; }
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_adddup2(&fa, pp[1], 1);
  posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
  const char *av[] = {"sh", "-c", cmd.c_str(), nullptr}; const char *ev[] = {path.c_str(), "LC_ALL=C", tool.c_str(), pct.c_str(), nullptr};
  posix_spawnattr_t at2; posix_spawnattr_init(&at2); posix_spawnattr_setpgroup(&at2, 0); posix_spawnattr_setflags(&at2, POSIX_SPAWN_SETPGROUP);
  pid_t pid; int r = posix_spawn(&pid, "/bin/sh", &fa, &at2, (char *const *)av, (char *const *)ev);
  posix_spawnattr_destroy(&at2);
  posix_spawn_file_actions_destroy(&fa); ::close(pp[1]);
  if (r) { ::close(pp[0]); p->status = 127 << 8; return; }
  char buf[65536]; ssize_t n; while ((n = ::read(pp[0], buf, sizeof buf)) > 0) p->out.append(buf, n);
  ::close(pp[0]); int st = 0; while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  p->status = st;
  if (changes) { // what the command did there counts as done by the process
    auto after = tempState(); Inst *me = p->in;
    for (auto &x : before) if (!after.count(x.first)) { guardTemp(x.first, "removed", false); auto i = tempOwner.find(x.first); if (i != tempOwner.end()) { if (i->second >= 0) insts[i->second].temps.erase(x.first); tempOwner.erase(i); } }
      else if (after[x.first] != x.second) guardTemp(x.first, "changed", false);
    for (auto &x : after) if (!before.count(x.first)) { obs("~tmpname", x.first); tempOwner[x.first] = me->id; me->temps.insert(x.first); }
  }
}
FILE *__wrap_popen(const char *cmd, const char *mode) {
  const Fault *f; int e = point("popen", "", &f);
  if (e) { errno = e; return nullptr; }
  if (fdLimit()) { errno = EMFILE; return nullptr; }
  if (mode[0] != 'r') { obs("!foot", str("command started for writing: ") + cmd); errno = EINVAL; return nullptr; }
  PipeRun *p = new PipeRun{cur, cmd};
  if (f) { p->tool = f->act; p->pct = f->arg % 101; }
  Stream *s = new Stream{cur, -1, "(pipe)"}; s->pipe = p; s->noseek = true;
  FILE *fp = makeStream(s, "r"); cur->pipes.insert(fp);
  return fp;
}
// A whole block is read straight into the caller's memory; if that is a null pointer the kernel refuses it, and the
// stream of the simulator, which copies, would crash where the real one only fails.
size_t __wrap_fread(void *p, size_t size, size_t n, FILE *f) {
  auto i = p ? streams.end() : streams.find(f);
  if (i != streams.end() && !i->second->pipe && size * n >= 4096) { point("read", i->second->path, nullptr, size * n); f->_flags |= _IO_ERR_SEEN; errno = EFAULT; return 0; }
  return fread(p, size, n, f);
}
int __wrap_pclose(FILE *f) {
  if (!f) raise(SIGSEGV);
  auto i = streams.find(f); if (i == streams.end() || !i->second->pipe) { memFault("pclose of a stream that is not open"); return -1; }
  PipeRun *p = i->second->pipe; const Fault *fl; int e = point("pclose", "", &fl);
  pipeStart(p); int st = p->status;
  if (fl && fl->act == "killed") st = 9;
  cur->pipes.erase(f); fclose(f); delete p;
  if (e) { errno = e; return -1; }
  return st;
}
int __wrap_system(const char *c) {
  if (!c) return 1;
  const Fault *f; int e = point("popen", "", &f); if (e) { errno = e; return -1; }
  PipeRun p{cur, c}; if (f) { p.tool = f->act; p.pct = f->arg % 101; } pipeStart(&p); return p.status;
}
pid_t __wrap_fork(void) { point("fork", ""); obs("!foot", "fork"); errno = EAGAIN; return -1; }
pid_t __wrap_vfork(void) { return __wrap_fork(); }
int __wrap_execv(const char *, char *const *) { errno = ENOSYS; return -1; }
int __wrap_execve(const char *, char *const *, char *const *) { errno = ENOSYS; return -1; }
int __wrap_execvp(const char *, char *const *) { errno = ENOSYS; return -1; }
int __wrap_execl(const char *, const char *, ...) { errno = ENOSYS; return -1; }
int __wrap_execlp(const char *, const char *, ...) { errno = ENOSYS; return -1; }
int __wrap_posix_spawn(pid_t *, const char *, const void *, const void *, char *const *, char *const *) { obs("!foot", "spawn"); return EAGAIN; }
int __wrap_posix_spawnp(pid_t *, const char *, const void *, const void *, char *const *, char *const *) { obs("!foot", "spawn"); return EAGAIN; }
pid_t __wrap_wait(int *) { errno = ECHILD; return -1; }
pid_t __wrap_waitpid(pid_t, int *, int) { errno = ECHILD; return -1; }
int __wrap_kill(pid_t, int) { obs("!foot", "kill"); errno = EPERM; return -1; }
int __wrap_raise(int s) { obs("~raise", strf("%d", s)); procExit(128 + s, ST_EXIT); return 0; }

// ---------------------------------------------------------------- end of process, time, randomness, environment
// The command-line tool may end with exit(0) as well as by returning 0 from main.
void __wrap_exit(int c) { procExit(c & 255, PL->procs[cur->id].cli && (c & 255) == 0 ? ST_DONE : ST_EXIT); }
void __wrap_quick_exit(int c) { __wrap_exit(c); }
void __wrap__exit(int c) { cur->exiting = true; cur->state = ST_EXIT; cur->code = c & 255; SH->state[cur->id] = ST_EXIT; SH->code[cur->id] = c & 255; swapcontext(&cur->ctx, &schedCtx); }
void __wrap__Exit(int c) { __wrap__exit(c); }
void __wrap_abort(void) { obs("~abort", ""); __wrap__exit(134); }
static void complain(int code, const char *fmt, va_list ap, int e) {
  if (fmt) vfprintf(cur->err, fmt, ap);
  fprintf(cur->err, e ? ": %s\n" : "\n", strerror(e)); if (code >= 0) __wrap_exit(code);
}
void __wrap_err(int c, const char *f, ...) { int e = errno; va_list ap; va_start(ap, f); complain(c, f, ap, e); va_end(ap); }
void __wrap_errx(int c, const char *f, ...) { va_list ap; va_start(ap, f); complain(c, f, ap, 0); va_end(ap); }
void __wrap_warn(const char *f, ...) { int e = errno; va_list ap; va_start(ap, f); complain(-1, f, ap, e); va_end(ap); }
void __wrap_warnx(const char *f, ...) { va_list ap; va_start(ap, f); complain(-1, f, ap, 0); va_end(ap); }
void __wrap_error(int c, int e, const char *f, ...) { fflush(cur->out); va_list ap; va_start(ap, f); complain(c ? c : -1, f, ap, e); va_end(ap); }
void __wrap_perror(const char *m) { int e = errno; fprintf(cur->err, "%s%s%s\n", m && *m ? m : "", m && *m ? ": " : "", strerror(e)); }
void __wrap___assert_fail(const char *e, const char *, unsigned, const char *) { obs("~abort", e); __wrap__exit(134); }
int __wrap_atexit(void (*f)(void)) { cur->atexits.push_back(f); return 0; }
pid_t __wrap_getpid(void) { return 4000 + (PL->k("samepid") ? 0 : cur->id); }
pid_t __wrap_getppid(void) { return 1; }
static u64 nowUs() { return 1700000000000000ULL + (u64)PL->k("clock") * 1000000ULL + SH->clock_us; }
time_t __wrap_time(time_t *t) { time_t v = nowUs() / 1000000; if (t) *t = v; return v; }
int __wrap_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = nowUs() / 1000000; tv->tv_usec = nowUs() % 1000000; return 0; }
int __wrap_clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = nowUs() / 1000000; ts->tv_nsec = nowUs() % 1000000 * 1000; return 0; }
clock_t __wrap_clock(void) { return SH->clock_us; }
int __wrap_rand(void) { return cur->rng.next() & 0x7fffffff; }
long __wrap_random(void) { return cur->rng.next() & 0x7fffffff; }
void __wrap_srand(unsigned s) { cur->rng = Rng(s); }
void __wrap_srandom(unsigned s) { cur->rng = Rng(s); }
int __wrap_rand_r(unsigned *s) { *s = *s * 1103515245 + 12345; return *s & 0x7fffffff; }
double __wrap_drand48(void) { return (cur->rng.next() >> 11) * (1.0 / 9007199254740992.0); }
u32 __wrap_arc4random(void) { return cur->rng.next(); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((char *)b)[i] = cur->rng.next(); return n; }
unsigned __wrap_sleep(unsigned s) { SH->clock_us += s * 1000000ULL; seamPoint("sleep", ""); return 0; }
int __wrap_usleep(unsigned us) { SH->clock_us += us; seamPoint("sleep", ""); return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *) { SH->clock_us += t->tv_sec * 1000000ULL + t->tv_nsec / 1000; seamPoint("sleep", ""); return 0; }
int __wrap_sched_yield(void) { seamPoint("sleep", ""); return 0; }
unsigned __wrap_alarm(unsigned) { return 0; }
int __wrap_pause(void) { seamPoint("sleep", ""); errno = EINTR; return -1; }
char *__wrap_getenv(const char *n) { static char h[] = "/nonexistent", p[] = "/usr/bin:/bin"; if (!strcmp(n, "HOME")) return h; if (!strcmp(n, "PATH")) return p; return nullptr; }
char *__wrap_strtok(char *s, const char *d) { return strtok_r(s, d, &cur->strtokSave); }
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  if (fd >= 0) { const Fault *f; int e = point("read", fdPath(fd), &f, n); if (e) { errno = e; return MAP_FAILED; }
    if ((pr & PROT_WRITE) && (fl & MAP_SHARED) && fdPath(fd) != "(temp)") { footprint("mapped for writing:", fdPath(fd).c_str()); } }
  cur->live++; return ::mmap(a, n, pr, fl, fd, o);
}
void *__wrap_mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { return __wrap_mmap(a, n, pr, fl, fd, o); }
int __wrap_munmap(void *a, size_t n) { cur->live--; return ::munmap(a, n); }

// ---------------------------------------------------------------- libmagic (real library behind a handle of ours)
struct MagicH { Inst *in; bool loaded = false; str text, err; };
static magic_t realMagic; static std::set<MagicH *> magicOpen;
magic_t __wrap_magic_open(int) {
  const Fault *f; point("magic_open", "", &f); if (f) { errno = ENOMEM; return nullptr; }
  MagicH *h = new MagicH{cur}; magicOpen.insert(h); cur->magics.insert(h); return (magic_t)h;
}
static MagicH *mh(magic_t m) { MagicH *h = (MagicH *)m; if (!h) raise(SIGSEGV); if (!magicOpen.count(h)) { memFault("use of a closed file-type handle"); raise(SIGSEGV); } return h; }
int __wrap_magic_load(magic_t m, const char *) {
  MagicH *h = mh(m); const Fault *f; point("magic_load", "", &f); if (f) { h->err = "could not find any valid magic files! (simulated)"; return -1; }
  h->loaded = true; return 0;
}
const char *__wrap_magic_buffer(magic_t m, const void *b, size_t n) {
  MagicH *h = mh(m); const Fault *f; point("magic_buf", "", &f, n);
  if (f || !h->loaded) { h->err = f ? "cannot allocate memory (simulated)" : "no magic files loaded"; return nullptr; }
  const char *r = magic_buffer(realMagic, b, n); if (!r) { h->err = "error"; return nullptr; } h->text = r; return h->text.c_str();
}
const char *__wrap_magic_file(magic_t m, const char *p) {
  MagicH *h = mh(m); str n = norm(p); const Fault *f; point("magic_file", n, &f);
  if (f || !h->loaded) { h->err = f ? "cannot allocate memory (simulated)" : "no magic files loaded"; return nullptr; }
  const Fault *fo = faultAt("open", n); // an unreadable file is described, not refused, by the library
  if (fo && errOf(fo->act)) { h->text = "regular file, no read permission"; return h->text.c_str(); }
  const char *r = magic_file(realMagic, mapPath(p).c_str()); if (!r) { h->err = "error"; return nullptr; } h->text = r; return h->text.c_str();
}
const char *__wrap_magic_descriptor(magic_t m, int fd) { MagicH *h = mh(m); const char *r = magic_descriptor(realMagic, fd); if (!r) return nullptr; h->text = r; return h->text.c_str(); }
const char *__wrap_magic_error(magic_t m) { if (!m) return "Magic database is not open"; return mh(m)->err.c_str(); }
int __wrap_magic_setflags(magic_t, int) { return 0; }
void __wrap_magic_close(magic_t m) { if (!m) return; MagicH *h = mh(m); point("magic_close", ""); magicOpen.erase(h); h->in->magics.erase(h); delete h; }
} // extern "C"

// ---------------------------------------------------------------- set-up and tear-down
void seamZygote() {
  realMagic = magic_open(MAGIC_NONE);
  if (!realMagic || magic_load(realMagic, nullptr)) { fprintf(stderr, "libmagic does not load\n"); exit(3); }
  arenaInit();
}
static void *pcreMalloc(size_t n) { return cur ? seam_malloc(n) : malloc(n); }
static void pcreFree(void *p) { seam_free(p); }
void seamReset(const Plan &p) {
  PL = &p; pcre_malloc = pcreMalloc; pcre_free = pcreFree;
  for (auto &f : p.faults) faults.push_back({f, false});
  edits = p.edits; nextEdit = 0;
  std::stable_sort(edits.begin(), edits.end(), [](const Edit &a, const Edit &b) { return a.step < b.step; });
  armed = !p.k("armed");
  stepCap = p.k("stepcap", 200000); orderSeed = p.k("order"); chunkKnob = p.k("chunk"); fdCap = p.k("fdcap");
  nameCounter = 0; nameSpace = p.k("namespace", 1 << 20);
  multi = p.procs.size() > 1;
  for (auto &f : p.files) if (f.type == 't') tempOwner[f.path] = -1;
  for (int i = 0; i < NPROC; i++) {
    Inst &in = insts[i]; in.id = i; in.rng = Rng(p.seed ^ (i * 7919)); in.state = ST_UNUSED; SH->state[i] = ST_UNUSED;
    if (i < (int)p.procs.size()) {
      in.state = ST_READY; SH->state[i] = ST_READY;
      for (auto &k : p.kills) if (k.proc == i) in.killAt = k.step;
      cookie_io_functions_t io = {nullptr, cookieWrite, nullptr, nullptr};
      Stream *so = new Stream{&in, -1, "(stdout)"}; so->isOut = true; so->outNo = 1;
      Stream *se = new Stream{&in, -1, "(stderr)"}; se->isOut = true; se->outNo = 2;
      in.out = fopencookie(so, "w", io); in.err = fopencookie(se, "w", io);
      setvbuf(in.out, nullptr, _IOFBF, 4096); setvbuf(in.err, nullptr, _IONBF, 0);
    }
  }
}
void seamFinish() {
  for (int i = 0; i < NPROC; i++) {
    Inst &in = insts[i]; if (!in.out) continue;
    if (in.outbuf.size()) obsAs(i, -2, "stdout", in.outbuf);
    if (in.errbuf.size()) obsAs(i, -2, "stderr", in.errbuf);
    for (auto &t : in.temps) obsAs(i, -2, "~temp", t);
    obsAs(i, -2, "~res", strf("live %ld fds %ld magic %zu", in.live, fdCount(&in), in.magics.size()));
  }
  cur = nullptr;
}
