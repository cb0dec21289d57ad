// osim.h: deterministic simulator for ohcount: common declarations.
#pragma once
#include <cstdint>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <ucontext.h>
#include <sys/types.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef std::string str;
typedef std::vector<std::string> strs;

// ---------------------------------------------------------------- randomness and hashing
static inline u64 mix64(u64 z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(mix64(seed)) {}
  u64 next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); }
  bool pct(int p) { return (int)below(100) < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
  }
};
static inline u64 hash64(const void *p, size_t n, u64 h = 0xcbf29ce484222325ULL) {
  const unsigned char *c = (const unsigned char *)p;
  while (n >= 8) { u64 w; memcpy(&w, c, 8); h = mix64(h ^ w); c += 8; n -= 8; }
  u64 w = 0; memcpy(&w, c, n);
  return mix64(h ^ w ^ ((u64)n << 56));
}
static inline u64 hashS(const str &s, u64 h = 0xcbf29ce484222325ULL) { return hash64(s.data(), s.size(), h); }
str strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
str esc(const str &);
str unesc(const str &);
strs split(const str &, char);
str clip(const str &, size_t n = 300);

// ---------------------------------------------------------------- plans
struct FileSpec { char type; str path; str data; long size = 0; int mode = 0644; };
//   f regular file (data)   d directory   l symbolic link (data = target)   p pipe (data)   s sparse file (size)
//   t regular file in the temporary directory, left behind by an earlier process
struct Op { str name; strs a; };
struct Proc { bool cli = false; strs argv; std::vector<Op> ops; };
struct Fault { int proc; str site, path; long nth; str act; long arg; };
struct Edit { long step; str op, path, arg; };
struct Kill { int proc; long step; };
struct Plan {
  str prop; u64 seed = 0;
  std::map<str, long> knob;
  std::vector<FileSpec> files;
  std::vector<Proc> procs;
  std::vector<Fault> faults;
  std::vector<Edit> edits;
  std::vector<Kill> kills;
  std::vector<int> sched;
  long k(const str &n, long d = 0) const { auto i = knob.find(n); return i == knob.end() ? d : i->second; }
  str text() const;
  static bool parse(const str &, Plan &);
};

// ---------------------------------------------------------------- results shared with the simulated process
enum { OBS_MAX = 48 << 20, TR_MAX = 60000, POOL_MAX = 4 << 20, NPROC = 4, NSITE = 40 };
enum { ST_READY = 0, ST_DONE = 1, ST_EXIT = 2, ST_KILLED = 3, ST_UNUSED = 4 };
struct TrEv { u32 proc, site, pathOff, pathLen; long nthSite, nthPath; long size; };
struct FiredRec { char key[48]; u64 n; };
struct Shared {
  u64 obsLen, obsDropped, trN, poolLen, trHash, schedHash, steps, switches, clock_us;
  int curProc, curOp, hang, nprocs;
  int state[NPROC], code[NPROC];
  long mallocs[NPROC], bytes[NPROC];
  u64 nfired; FiredRec fired[64];
  u64 probes[64];
  int chosenN; unsigned char chosen[20000];
  int nSites; char siteName[NSITE][16];
  TrEv tr[TR_MAX];
  char pool[POOL_MAX];
  char obs[OBS_MAX];
};
struct Obs { int proc, op; str kind, text; };
struct Result {
  bool crashed = false; int sig = 0; bool hang = false; bool harnessError = false;
  int crashProc = 0, crashOp = 0;
  int state[NPROC], code[NPROC]; long mallocs[NPROC];
  u64 trHash = 0, schedHash = 0, steps = 0, switches = 0, clock_us = 0;
  std::vector<Obs> obs;
  std::map<str, u64> fired;
  std::vector<int> chosen;
  const Obs *find(int proc, int op, const str &kind) const {
    for (auto &o : obs) if (o.proc == proc && o.op == op && o.kind == kind) return &o;
    return nullptr;
  }
};
struct Trace { struct Ev { int proc; str site, path; long nthSite, nthPath, size; }; std::vector<Ev> ev; Result r; };

// ---------------------------------------------------------------- simulated processes
struct SutFns {
  void *(*sf_new)(const char *); void (*sf_free)(void *); void (*set_disk)(void *, const char *);
  void (*set_contents)(void *, const char *); void (*set_lang)(void *, const char *); void (*set_filenames)(void *, char **);
  const char *(*filepath)(void *); const char *(*filename)(void *); const char *(*ext)(void *);
  const char *(*contents)(void *); int (*size)(void *); const char *(*language)(void *); void (*parse)(void *);
  void (*pll)(void *, void (*)(void *, const char *, int, int, int, const char *, const char *), void *);
  void (*loc)(void *, void (*)(void *, const char *, int, int, int, int), void *);
  void (*lic)(void *, void (*)(void *, const char *), void *);
  void (*annot)(void *, void (*)(const char *, const char *, int, int, void *), void *);
  void (*ents)(void *, void (*)(const char *, const char *, int, int, void *), void *);
  void *(*diff)(void *, void *); void *(*dl_new)(); void (*dl_add)(void *, void *); void *(*dl_compact)(void *); void (*dl_free)(void *);
  void (*dl_walk)(void *, void (*)(void *, const char *, int, int, int, int, int, int), void *);
  void (*dl_sums)(void *, int *); int (*dl_get)(void *, const char *, int *);
  void *(*l_new)(); void (*l_add)(void *, const char *); void (*l_dir)(void *, const char *); void (*l_free)(void *);
  void *(*l_analyze)(void *); void (*l_walk)(void *, void (*)(void *, void *), void *);
  void *(*ll_new)(); void *(*ll_of)(void *); void (*ll_add)(void *, void *); void *(*ll_compact)(void *); void (*ll_free)(void *);
  void (*ll_walk)(void *, void (*)(void *, const char *, int, int, int, int), void *);
  void (*ll_sums)(void *, int *); int (*ll_get)(void *, const char *, int *);
  int (*cli)(int, char **);
};
struct Inst {
  int id = 0; SutFns *f = nullptr; ucontext_t ctx; char *stack = nullptr; int state = ST_UNUSED; int code = 0;
  FILE *out = nullptr, *err = nullptr; str outbuf, errbuf; long outTotal = 0;
  std::unordered_map<str, long> cnt;
  std::set<int> fds; std::set<FILE *> streams; std::set<void *> dirs, pipes, magics; long unreaped = 0; // children nobody waited for
  std::set<str> temps; // temporary files created and not yet removed
  char *strtokSave = nullptr;
  Rng rng; long seams = 0; long mallocs = 0; long live = 0, liveBytes = 0; long killAt = -1;
  std::vector<void (*)()> atexits;
  int curOp = -1; bool exiting = false;
};
extern Shared *SH;       // of the run in progress
extern const Plan *PL;   // plan of the run in progress (simulated side)
extern Inst *cur;
extern Inst insts[NPROC];
extern str simBase;      // base/tree is the working directory, base/T stands for /tmp

void obs(const str &kind, const str &text);                       // observation of the current operation
void seamPoint(const char *site, const str &path, long size = 0);
const Fault *faultAt(const char *site, const str &path);
void procExit(int code, int state);
void arenaInit();
str arenaCheck();                                                 // "" or a description of corrupted memory
str arenaLive(int owner, long sinceSeq);                          // description of live blocks
long arenaSeq();
void seamReset(const Plan &);
void seamFinish();
void seamZygote();
void *seam_malloc(size_t);
void seam_free(void *);

// ---------------------------------------------------------------- running plans
struct Violation { bool is = false; str cls, msg; };
struct Director {
  str base;              // scratch directory of this worker
  Shared *sh = nullptr, *shO = nullptr;
  u64 freshRuns = 0, freshHits = 0;
  Result run(const Plan &, const str &dir, Shared *);
  Result run(const Plan &p) { return run(p, base + "/M", sh); }
  Trace dry(const Plan &);
  Result fresh(const Plan &mini);          // cached run in a process of its own
  str freshQuery(const Plan &mini);        // last observation text, or a description of the abnormal end
};
void materialise(const Plan &, const str &dir);
str snapshot(const str &dir);              // canonical description of a tree
void rmTree(const str &path);

struct Profile {
  const char *id;
  std::function<Plan(u64 seed, Director &)> gen;
  std::function<Violation(const Plan &, Director &, Result &)> check;   // runs the plan and judges it
  std::function<str(const Plan &, const Result &)> sample;
};
extern std::vector<Profile> profiles;
struct CorpusFile { str name, data; };
extern std::vector<CorpusFile> corpus;
extern std::map<str, u64> extraCounters;   // counters of the judging side of the current run
void bump(const str &key, u64 n = 1);
