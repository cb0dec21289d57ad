#include <sys/resource.h>
// main.cc: seeded search over plans with several workers, gating, minimisation and replay.
//   osim run    --sut DIR --prop ID --base N --seeds N --secs S --workers W --out FILE --replays DIR [--known FILE]
//   osim replay --sut DIR FILE            runs a replay file; exit 1 if it violates its property
//   osim seed   --sut DIR --prop ID --base N [--plan]   one seed, verbosely
//   osim digest --sut DIR --prop ID --base N --seeds N --workers W   a digest of all outcomes
#include "gen.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

std::vector<Profile> profiles; std::vector<CorpusFile> corpus;
void profiles1(); void profiles2(); void cacheInit(); void coreZygote(const str &);
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static str readFile(const str &p) { str r; FILE *f = fopen(p.c_str(), "rb"); if (!f) return r; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static void writeFile(const str &p, const str &d) { FILE *f = fopen(p.c_str(), "wb"); if (!f) return; fwrite(d.data(), 1, d.size(), f); fclose(f); }
static str scratch; static pid_t owner;
static void dropScratch() { if (getpid() == owner && scratch.size()) rmTree(scratch); }

static Profile *profileOf(const str &id) { for (auto &p : profiles) if (id == p.id) return &p; return nullptr; }
static void loadCorpus(const str &path) {
  str t = readFile(path); size_t o = 0;
  while (o < t.size()) { size_t e = t.find('\n', o); if (e == str::npos) break; str h = t.substr(o, e - o); size_t s = h.rfind(' '); size_t n = atol(h.c_str() + s + 1); corpus.push_back({h.substr(0, s), t.substr(e + 1, n)}); o = e + 1 + n + 1; }
  if (corpus.size() < 100) { fprintf(stderr, "corpus missing\n"); exit(3); }
}
static Shared *newShared() { Shared *s = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (s == MAP_FAILED) { perror("mmap"); exit(3); } return s; }

// ---------------------------------------------------------------- one seed or plan, in a process of its own
struct Report {
  bool ok = false; u64 hash = 0, tr = 0, sched = 0, steps = 0, switches = 0, clock = 0, fresh = 0, hits = 0; str cls, msg, sample; Plan plan; str planText;
  std::map<str, u64> fired, ctr; std::vector<int> chosen;
};
static str ser(const Report &r) {
  str t = strf("n %llu %llu %llu %llu %llu %llu %llu %llu\n", (unsigned long long)r.hash, (unsigned long long)r.tr, (unsigned long long)r.sched, (unsigned long long)r.steps, (unsigned long long)r.switches, (unsigned long long)r.clock, (unsigned long long)r.fresh, (unsigned long long)r.hits);
  t += "c " + esc(r.cls) + "\nm " + esc(r.msg) + "\ns " + esc(r.sample) + "\np " + esc(r.planText) + "\n";
  for (auto &f : r.fired) t += strf("f %s %llu\n", esc(f.first).c_str(), (unsigned long long)f.second);
  for (auto &f : r.ctr) t += strf("x %s %llu\n", esc(f.first).c_str(), (unsigned long long)f.second);
  t += "h"; for (int c : r.chosen) t += strf(" %d", c); return t + "\nend\n";
}
static bool deser(const str &t, Report &r) {
  for (auto &l : linesOf(t)) {
    strs w = split(l, ' ');
    if (w[0] == "n") { u64 *v[] = {&r.hash, &r.tr, &r.sched, &r.steps, &r.switches, &r.clock, &r.fresh, &r.hits}; for (int i = 0; i < 8; i++) *v[i] = strtoull(w[i + 1].c_str(), 0, 10); }
    else if (w[0] == "c") r.cls = unesc(w[1]); else if (w[0] == "m") r.msg = unesc(w[1]); else if (w[0] == "s") r.sample = unesc(w[1]);
    else if (w[0] == "p") r.planText = unesc(w[1]);
    else if (w[0] == "f") r.fired[unesc(w[1])] = strtoull(w[2].c_str(), 0, 10);
    else if (w[0] == "x") r.ctr[unesc(w[1])] = strtoull(w[2].c_str(), 0, 10);
    else if (w[0] == "h") { for (size_t i = 1; i < w.size(); i++) r.chosen.push_back(atoi(w[i].c_str())); }
    else if (w[0] == "end") r.ok = true;
  }
  return r.ok;
}
static Report evalIn(Director &d, Profile *pf, u64 seed, const Plan *given) {
  Report r; extraCounters.clear();
  Plan p = given ? *given : pf->gen(seed, d);
  p.prop = pf->id; p.seed = given ? given->seed : seed;
  Result res; Violation v = pf->check(p, d, res);
  r.plan = p; r.planText = p.text(); r.tr = res.trHash; r.sched = res.schedHash; r.steps = res.steps; r.switches = res.switches; r.clock = res.clock_us;
  for (auto &f : res.fired) r.fired[f.first] = f.second;
  r.ctr = extraCounters; r.chosen = res.chosen; r.fresh = d.freshRuns; r.hits = d.freshHits;
  if (v.is) { r.cls = v.cls; r.msg = v.msg; }
  for (size_t i = 0; (i = r.msg.find("/osim.", i)) != str::npos;) { // scratch directories differ from process to process
    size_t b = i; while (b && r.msg[b - 1] != ' ' && r.msg[b - 1] != '"' && r.msg[b - 1] != '\n' && r.msg[b - 1] != '\'' && r.msg[b - 1] != '\t') b--;
    size_t e = i + 6; while (e < r.msg.size() && isdigit((unsigned char)r.msg[e])) e++;
    if (e + 4 <= r.msg.size() && r.msg[e] == '/' && r.msg[e + 1] == 'w') { e += 4; if (e + 1 < r.msg.size() && r.msg[e] == '/' && isupper((unsigned char)r.msg[e + 1])) e += 2; }
    r.msg.replace(b, e - b, "@"); i = b;
  }
  if (r.steps >= 1000000) r.steps -= 1000000; // "settle" moves the clock of edits
  r.sample = pf->sample ? pf->sample(p, res) : "";
  r.hash = hashS(r.planText, hashS(r.cls, hashS(r.msg, mix64(r.tr ^ r.sched))));
  r.ok = true; return r;
}
// Runs the evaluation in a child so that no state of one seed reaches the next.
static Report evaluate(const str &base, Shared *sh, Shared *shO, Profile *pf, u64 seed, const Plan *given, bool brief = false) {
  int pp[2]; Report r; if (pipe2(pp, O_CLOEXEC)) return r;
  fflush(nullptr); pid_t pid = fork();
  if (pid < 0) { close(pp[0]); close(pp[1]); return r; }
  if (pid == 0) {
    close(pp[0]); prctl(PR_SET_PDEATHSIG, SIGKILL); Director d; d.base = base; d.sh = sh; d.shO = shO;
    Report x = evalIn(d, pf, seed, given); if (brief) { x.sample = ""; }
    if (x.cls.empty()) x.planText = ""; if (x.cls.empty()) x.chosen.clear();
    str t = ser(x); size_t o = 0; while (o < t.size()) { ssize_t n = write(pp[1], t.data() + o, t.size() - o); if (n <= 0) _exit(4); o += n; }
    _exit(0);
  }
  close(pp[1]); str t; char b[65536]; ssize_t n; while ((n = read(pp[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) t.append(b, n);
  close(pp[0]); int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { r.ok = false; return r; }
  if (deser(t, r) && r.planText.size()) Plan::parse(r.planText, r.plan);
  return r;
}

// ---------------------------------------------------------------- known findings
struct Known { str prop, cls, match, text; };
static std::vector<Known> knowns;
static void loadKnown(const str &f) { // known: property=C01 class=answer match="..." description
  for (auto &l : linesOf(readFile(f))) {
    if (l.compare(0, 7, "known: ")) continue;
    Known k; auto get = [&](const str &key) { size_t a = l.find(key + "="); if (a == str::npos) return str(); a += key.size() + 1; if (l[a] == '"') { size_t b = l.find('"', a + 1); return l.substr(a + 1, b - a - 1); } size_t b = l.find(' ', a); return l.substr(a, b - a); };
    k.prop = get("property"); k.cls = get("class"); k.match = get("match"); { size_t a = l.find("match=\""); a = a == str::npos ? a : l.find("\" ", a + 7); k.text = a == str::npos ? l.substr(7) : l.substr(a + 2); } if (k.match.size()) knowns.push_back(k);
  }
}
static int knownOf(const str &prop, const str &cls, const str &msg) { for (size_t i = 0; i < knowns.size(); i++) if (knowns[i].prop == prop && (knowns[i].cls.empty() || knowns[i].cls == cls) && msg.find(knowns[i].match) != str::npos) return i; return -1; }

// ---------------------------------------------------------------- minimisation
struct Mini {
  str base; Shared *sh, *shO; Profile *pf; str cls; Plan best; int evals = 0; double until;
  bool over() { return evals > 700 || now() > until; }
  bool test(const Plan &c) { if (over()) return false; evals++; Report r = evaluate(base, sh, shO, pf, c.seed, &c, true); if (r.ok && r.cls == cls && knownOf(pf->id, r.cls, r.msg) < 0) { best = c; return true; } return false; }
  template <class T> void list(std::vector<T> Plan::*m) { lists([m](Plan &p) -> std::vector<T> & { return p.*m; }); }
  template <class F> void lists(F get) {
    size_t n = get(best).size(); if (!n) return;
    for (size_t chunk = n; chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i < get(best).size() && !over();) { Plan c = best; auto &v = get(c); size_t e = std::min(v.size(), i + chunk); v.erase(v.begin() + i, v.begin() + e); if (!test(c)) i += chunk; }
      if (chunk == 1) break;
    }
  }
  void run() {
    bool keepOps = cls == "leak" || str(pf->id) == "C13" || str(pf->id) == "C06";
    list(&Plan::faults); list(&Plan::edits); list(&Plan::kills);
    for (size_t i = 0; i < best.procs.size(); i++) if (!keepOps && !best.procs[i].cli) lists([i](Plan &p) -> std::vector<Op> & { return p.procs[i].ops; });
    for (size_t i = 0; i < best.procs.size(); i++) if (best.procs[i].cli && best.procs[i].argv.size() > 1 && str(pf->id) != "C06") {
      for (size_t k = 1; k < best.procs[i].argv.size();) { Plan c = best; c.procs[i].argv.erase(c.procs[i].argv.begin() + k); if (!test(c)) k++; if (over()) break; } }
    bool keepFiles = str(pf->id) == "C06"; // (its model expects every file that is named)
    if (!keepFiles) list(&Plan::files);
    strs ks; for (auto &k : best.knob) ks.push_back(k.first);
    for (auto &k : ks) if (k != "armed" && k != "schedseed" && best.knob[k]) { Plan c = best; c.knob.erase(k); test(c); }
    if (best.sched.size()) { for (size_t n = best.sched.size(); n >= 1; n /= 2) { for (size_t i = 0; i < best.sched.size() && !over(); i += n) { Plan c = best; bool any = false; for (size_t k = i; k < std::min(best.sched.size(), i + n); k++) { any |= c.sched[k] != 0; c.sched[k] = 0; } if (any) test(c); } if (n == 1) break; }
      Plan c = best; while (c.sched.size() && c.sched.back() == 0) c.sched.pop_back(); if (c.sched.size() < best.sched.size()) test(c); }
    // contents: drop lines
    for (size_t f = 0; f < best.files.size() && !over(); f++) {
      for (int round = 0; round < 2; round++) {
      strs l = linesOf(best.files[f].data); if (l.size() < 2) break;
      for (size_t chunk = (l.size() + 1) / 2; chunk >= 1 && !over(); chunk /= 2) {
        for (size_t i = 0; i < l.size() && !over();) { strs m = l; m.erase(m.begin() + i, m.begin() + std::min(l.size(), i + chunk)); Plan c = best; c.files[f].data.clear(); for (auto &x : m) c.files[f].data += x + "\n"; if (test(c)) l = m; else i += chunk; }
        if (chunk == 1 || l.size() / chunk > 64) break; } }
    }
    list(&Plan::faults); list(&Plan::edits); if (!keepFiles) list(&Plan::files);
    for (size_t i = 0; i < best.procs.size(); i++) if (!keepOps && !best.procs[i].cli) lists([i](Plan &p) -> std::vector<Op> & { return p.procs[i].ops; });
  }
};

// ---------------------------------------------------------------- search
struct Board { volatile u64 next; volatile int found; volatile int quit; };
static str js(const str &s) { str r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) r += strf("\\u%04x", c); else r += c; } return r + "\""; }

int main(int argc, char **argv) {

  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("OSIM_NOASLR")) { setenv("OSIM_NOASLR", "1", 1); if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
  struct rlimit rl; if (!getrlimit(RLIMIT_NOFILE, &rl)) { rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl); }
  setenv("LC_ALL", "C", 1); setvbuf(stdout, nullptr, _IOLBF, 0);
  if (argc < 2) { fprintf(stderr, "usage: osim run|replay|seed|digest ...\n"); return 3; }
  str mode = argv[1], sut, prop, out, replays, file, known; u64 base = 1, seeds = 100; double secs = 30; int workers = 8; bool plan = false, verbose = false; str expect;
  for (int i = 2; i < argc; i++) {
    str a = argv[i]; auto nx = [&]() { return str(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--sut") sut = nx(); else if (a == "--prop") prop = nx(); else if (a == "--base") base = strtoull(nx().c_str(), 0, 10); else if (a == "--seeds") seeds = strtoull(nx().c_str(), 0, 10);
    else if (a == "--secs") secs = atof(nx().c_str()); else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--replays") replays = nx(); else if (a == "--known") known = nx();
    else if (a == "--plan") plan = true; else if (a == "-v") verbose = true; else file = a;
  }
  str self = readFile("/proc/self/cmdline"); char exe[4096]; ssize_t el = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[el > 0 ? el : 0] = 0;
  str here = str(exe).substr(0, str(exe).rfind('/'));
  const char *cp = getenv("OSIM_CORPUS"); loadCorpus(cp ? str(cp) : here + "/corpus.pack");
  if (known.size()) loadKnown(known);
  profiles1(); profiles2();
  seamZygote(); coreZygote(sut);
  struct stat st; str root = stat("/dev/shm", &st) == 0 && access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
  owner = getpid(); scratch = root + strf("/osim.%010d", (int)owner);
  if (mkdir(scratch.c_str(), 0755) && errno != EEXIST) { perror(scratch.c_str()); return 3; }
  atexit(dropScratch);
  for (int s : {SIGINT, SIGTERM, SIGHUP}) signal(s, [](int) { exit(3); });
  double t0 = now();

  if (mode == "seed" || mode == "replay") {
    Plan p; bool given = mode == "replay";
    if (given) { if (!Plan::parse(readFile(file), p)) { fprintf(stderr, "not a replay file: %s\n", file.c_str()); return 3; } prop = p.prop; base = p.seed; }
    Profile *pf = profileOf(prop); if (!pf) { fprintf(stderr, "no profile %s\n", prop.c_str()); return 3; }
    cacheInit(); Shared *a = newShared(), *b = newShared(); str w = scratch + "/w00"; mkdir(w.c_str(), 0755);
    if (plan || verbose) {
      Director d; d.base = w; d.sh = a; d.shO = b; if (!given) p = pf->gen(base, d); p.prop = prop; p.seed = base;
      if (plan) { printf("%s", p.text().c_str()); return 0; }
      Result r = d.run(p); printf("%s\n", clip(p.text(), 6000).c_str());
      for (u64 i = 0; i < a->trN && i < 400; i++) { TrEv &e = a->tr[i]; printf("  %llu p%d %s %s #%ld/%ld %ld\n", (unsigned long long)i, e.proc, a->siteName[e.site], str(a->pool + e.pathOff, e.pathLen).c_str(), e.nthSite, e.nthPath, e.size); }
      for (auto &o : r.obs) printf("  obs p%d op%d %s: %s\n", o.proc, o.op, o.kind.c_str(), clip(o.text, 400).c_str());
      for (auto &f : r.fired) printf("  fired %s %llu\n", f.first.c_str(), (unsigned long long)f.second);
      printf("  crashed %d sig %d hang %d harness %d state %d code %d steps %llu\n", r.crashed, r.sig, r.hang, r.harnessError, r.state[0], r.code[0], (unsigned long long)r.steps);
    }
    Report r = evaluate(w, a, b, pf, base, given ? &p : nullptr);
    if (!r.ok) { printf("ERROR the evaluation of this seed did not finish\n"); return 2; }
    printf("%s seed=%llu hash=%016llx trace=%016llx steps=%llu fresh=%llu\n", prop.c_str(), (unsigned long long)base, (unsigned long long)r.hash, (unsigned long long)r.tr, (unsigned long long)r.steps, (unsigned long long)r.fresh);
    for (auto &c : r.ctr) printf("  %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
    if (r.cls.size()) { printf("VIOLATED class=%s %s\n", r.cls.c_str(), r.msg.c_str()); return 1; }
    printf("held\n"); return 0;
  }
  Profile *pf = profileOf(prop); if (!pf) { fprintf(stderr, "no profile %s\n", prop.c_str()); return 3; }
  Board *bd = (Board *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  bd->next = 0; bool digest = mode == "digest"; double deadline = t0 + secs;
  std::vector<pid_t> kids;
  for (int w = 0; w < workers; w++) {
    fflush(nullptr); pid_t pid = fork(); if (pid < 0) { perror("fork"); return 3; }
    if (pid) { kids.push_back(pid); continue; }
    prctl(PR_SET_PDEATHSIG, SIGKILL); for (int s : {SIGINT, SIGTERM, SIGHUP}) signal(s, SIG_DFL);
    str dir = scratch + strf("/w%02d", w); mkdir(dir.c_str(), 0755); cacheInit(); Shared *a = newShared(), *b = newShared();
    FILE *o = fopen((dir + "/results").c_str(), "wb"); u64 done = 0;
    while (!bd->quit && now() < deadline) {
      u64 k = __sync_fetch_and_add(&bd->next, 1); if (k >= seeds) break;
      u64 s = base + k; double e0 = now(); Report r = evaluate(dir, a, b, pf, s, nullptr, done > 2); done++;
      if (now() - e0 > 5) fprintf(stderr, "slow seed %s %llu: %.1f s\n", prop.c_str(), (unsigned long long)s, now() - e0);
      if (digest) { fprintf(o, "D %llu %llu %d\n", (unsigned long long)s, (unsigned long long)r.hash, (int)r.cls.size()); continue; }
      if (!r.ok) { fprintf(o, "E %llu\n", (unsigned long long)s); continue; }
      if (r.cls.size() && r.cls != "harness") {
        int kn = knownOf(prop, r.cls, r.msg);
        Report r2 = evaluate(dir, a, b, pf, s, nullptr, true);
        if (!r2.ok || r2.hash != r.hash) { fprintf(o, "U %llu %s %s\n", (unsigned long long)s, esc(r.cls).c_str(), esc(r.msg).c_str()); }
        else if (kn >= 0) fprintf(o, "K %llu %d %s\n", (unsigned long long)s, kn, esc(r.msg).c_str());
        else { fprintf(o, "V %llu %s %s %s", (unsigned long long)s, esc(r.cls).c_str(), esc(r.msg).c_str(), esc(r.planText).c_str()); for (int c : r.chosen) fprintf(o, " %d", c); fputc('\n', o); if (__sync_add_and_fetch(&bd->found, 1) >= 4) bd->quit = 1; }
      } else if (r.cls == "harness") fprintf(o, "H %llu %s\n", (unsigned long long)s, esc(r.msg).c_str());
      u64 nf = 0; for (auto &f : r.fired) nf += f.second;
      fprintf(o, "R %llu %llu %llu %llu %llu %llu %llu %llu %llu\n", (unsigned long long)s, (unsigned long long)r.tr, (unsigned long long)r.sched, (unsigned long long)r.steps, (unsigned long long)r.switches, (unsigned long long)r.clock, (unsigned long long)r.fresh, (unsigned long long)r.hits, (unsigned long long)nf);
      for (auto &f : r.fired) fprintf(o, "f %s %llu\n", esc(f.first).c_str(), (unsigned long long)f.second);
      for (auto &f : r.ctr) fprintf(o, "x %s %llu\n", esc(f.first).c_str(), (unsigned long long)f.second);
      if (done <= 2) fprintf(o, "S %llu %s\n", (unsigned long long)s, esc(r.sample).c_str());
    }
    fclose(o); _exit(0);
  }
  // wait, with a limit
  size_t left = kids.size(); bool late = false;
  while (left) {
    int s; pid_t p = waitpid(-1, &s, WNOHANG); if (p > 0) { left--; if (!WIFEXITED(s) || WEXITSTATUS(s)) late = true; continue; }
    if (now() > deadline + 150) { for (pid_t k : kids) kill(k, SIGKILL); late = true; }
    usleep(20000);
  }
  u64 runs = 0, errs = 0, fresh = 0, hits = 0, clock = 0, steps = 0, switches = 0, nontrivial = 0; std::set<u64> traces, scheds, interesting; std::map<str, u64> fired, firedRuns, ctr; strs samples;
  struct V { u64 seed; str cls, msg, plan; std::vector<int> chosen; }; std::vector<V> vs; std::map<int, u64> known_; std::map<int, str> knownMsg; strs unrep, harness; u64 dig = 0, dn = 0;
  for (int w = 0; w < workers; w++)
    for (auto &l : linesOf(readFile(scratch + strf("/w%02d/results", w)))) {
      strs x = split(l, ' '); auto N = [&](size_t i) { return strtoull(x[i].c_str(), 0, 10); };
      if (x[0] == "D") { dig += mix64(mix64(N(1)) ^ N(2)); dn++; }
      else if (x[0] == "E") errs++, harness.push_back("seed " + x[1] + ": evaluation did not finish");
      else if (x[0] == "H") harness.push_back("seed " + x[1] + ": " + unesc(x[2]));
      else if (x[0] == "U") unrep.push_back("seed " + x[1] + " " + unesc(x[2]) + ": " + unesc(x[3]));
      else if (x[0] == "K") { known_[N(2)]++; knownMsg[N(2)] = unesc(x[3]); }
      else if (x[0] == "V") { V v{N(1), unesc(x[2]), unesc(x[3]), unesc(x[4]), {}}; for (size_t i = 5; i < x.size(); i++) v.chosen.push_back(atoi(x[i].c_str())); vs.push_back(v); }
      else if (x[0] == "R") { runs++; traces.insert(N(2)); scheds.insert(N(3)); steps += N(4); switches += N(5); clock += N(6); fresh += N(7); hits += N(8); if (N(9)) { nontrivial++; interesting.insert(N(2)); } }
      else if (x[0] == "f") { fired[unesc(x[1])] += N(2); firedRuns[unesc(x[1])]++; }
      else if (x[0] == "x") ctr[unesc(x[1])] += N(2);
      else if (x[0] == "S") samples.push_back("seed " + x[1] + ": " + unesc(x[2]));
    }
  double searched = now() - t0;
  if (digest) { printf("%s base=%llu n=%llu digest=%016llx\n", prop.c_str(), (unsigned long long)base, (unsigned long long)dn, (unsigned long long)dig); return 0; }
  // gate and minimise: one of each class, smallest plan first
  std::sort(vs.begin(), vs.end(), [](const V &a, const V &b) { return a.plan.size() != b.plan.size() ? a.plan.size() < b.plan.size() : a.seed < b.seed; });
  std::set<str> doneCls; strs outv; int reported = 0;
  for (auto &v : vs) {
    if (doneCls.count(v.cls) || reported >= 2 || now() - t0 - searched > 240) continue;
    cacheInit(); Shared *a = newShared(), *b = newShared(); str dir = scratch + "/w98"; mkdir(dir.c_str(), 0755);
    Mini m{dir, a, b, pf, v.cls, Plan(), 0, now() + 40}; Plan::parse(v.plan, m.best); Plan orig = m.best;
    if (orig.procs.size() > 1 && orig.k("schedseed")) { Plan c = m.best; c.sched = v.chosen; c.knob.erase("schedseed"); c.knob.erase("stick"); m.test(c); }
    m.run();
    // the minimised plan, or else the plan as it was found, has to give the same report again in two new processes
    Plan fin; Report r; str path = replays + strf("/%s-%s-%llu.plan", prop.c_str(), v.cls.c_str(), (unsigned long long)v.seed), why = "its plan does not reproduce it"; int okc = 0;
    for (int tryno = 0; tryno < 2 && okc != 2; tryno++) {
      fin = tryno ? orig : m.best; r = evaluate(dir, a, b, pf, fin.seed, &fin); okc = 0;
      if (!r.ok || r.cls != v.cls) continue;
      str head = "# " + prop + " violated (" + v.cls + "), found with seed " + std::to_string(v.seed) + "\n";
      for (auto &l : split(clip(r.msg, 1500), '\n')) head += "# " + l + "\n";
      head += strf("# hash %016llx, %s\n", (unsigned long long)r.hash, tryno ? "as found" : strf("minimised with %d evaluations", m.evals).c_str());
      writeFile(path, head + fin.text());
      str cmd = "'" + str(exe) + "' replay --sut '" + sut + "' '" + path + "' 2>/dev/null", want = strf("hash=%016llx", (unsigned long long)r.hash);
      for (int i = 0; i < 2; i++) { FILE *f = popen(cmd.c_str(), "r"); str t; char bb[4096]; size_t n; while (f && (n = fread(bb, 1, sizeof bb, f)) > 0) t.append(bb, n); int rc = f ? pclose(f) : -1; if (WIFEXITED(rc) && WEXITSTATUS(rc) == 1 && t.find(want) != str::npos) okc++; }
      if (okc != 2) why = "replay of " + path + " in a new process differs";
    }
    if (okc != 2) { unrep.push_back(strf("seed %llu %s: %s", (unsigned long long)v.seed, v.cls.c_str(), why.c_str())); continue; }
    doneCls.insert(v.cls); reported++;
    printf("VIOLATION property=%s replay=%s\n  class %s, seed %llu: %s\n", prop.c_str(), path.c_str(), v.cls.c_str(), (unsigned long long)v.seed, clip(r.msg, 1200).c_str());
    outv.push_back("{\"class\":" + js(v.cls) + ",\"seed\":" + std::to_string(v.seed) + ",\"replay\":" + js(path) + ",\"message\":" + js(clip(r.msg, 1000)) + "}");
  }
  for (auto &k : known_) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), knowns[k.first].text.c_str());
  for (auto &u : unrep) printf("UNREPRODUCIBLE %s\n", clip(u, 500).c_str());
  for (auto &u : harness) printf("HARNESS %s\n", clip(u, 500).c_str());
  if (late) printf("HARNESS a worker did not finish\n");
  std::sort(samples.begin(), samples.end()); if (samples.size() > 6) samples.resize(6);
  if (out.size()) {
    str t = "{"; auto num = [&](const char *k, double v) { t += strf("\"%s\":%.15g,", k, v); };
    num("runs", runs); num("requested", seeds); num("seed_base", base); num("search_s", searched); num("wall_s", now() - t0); num("workers", workers); num("steps", steps); num("switches", switches); num("simulated_us", clock); num("fresh_runs", fresh); num("fresh_hits", hits);
    num("distinct_traces", traces.size()); num("distinct_schedules", scheds.size()); num("perturbed_runs", nontrivial); num("distinct_perturbed", interesting.size()); num("errors", errs);
    auto mp = [&](const char *k, std::map<str, u64> &m) { t += strf("\"%s\":{", k); bool f = true; for (auto &e : m) { t += (f ? "" : ",") + js(e.first) + ":" + std::to_string(e.second); f = false; } t += "},"; };
    mp("fired", fired); mp("fired_runs", firedRuns); mp("counters", ctr);
    auto ls = [&](const char *k, strs &v, bool raw) { t += strf("\"%s\":[", k); for (size_t i = 0; i < v.size(); i++) t += (i ? "," : "") + (raw ? v[i] : js(v[i])); t += "],"; };
    ls("samples", samples, false); ls("violations", outv, true); ls("unreproducible", unrep, false); ls("harness", harness, false);
    t += "\"known\":["; bool f = true; for (auto &k : known_) { t += (f ? "" : ",") + js(knowns[k.first].text); f = false; } t += "]}\n"; writeFile(out, t);
  }
  if (reported) return 1;
  if (unrep.size() || harness.size() || late || (vs.size() && !reported)) return 2;
  return 0;
}
