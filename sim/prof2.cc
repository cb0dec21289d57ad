// prof2.cc: profiles C03 (reading), C04 (scans), C05 (unreadable files), C08 (comparison faults), C09 (footprint), C10 (processes), C13 (changing trees), C14 (output)
#include "gen.h"
void planFaults(Gen &g, Director &d, int n, bool persistentToo, const std::set<str> &sites);
void someOps(Gen &g, Proc &q, int n, bool lists, bool diffs);
Violation compareCli(const Plan &p, Director &d, const Result &r, int proc);
Table summaryTable(const str &out, Table *total, long *files);
str sampleOf(const Plan &p, const Result &r);
str kindOf(Rng &r);
str reviseText(Gen &g, const str &s);
extern str contentsText(const char *c, long n);

// ---------------------------------------------------------------- C03
static Plan genC03(u64 seed, Director &d) {
  Gen g("C03", seed); Rng &r = g.r; g.memoryKnobs(); if (r.pct(70)) g.p.knob["chunk"] = 1 + r.below(1000000);
  int kind = r.below(20); str path; int big = r.pct(25) ? 4000 + r.below(20000) : 0;
  if (r.pct(10)) big = 4096 * (1 + r.below(4)) + r.below(3) - 1;
  if (kind == 0) { path = "pipe.c"; g.add('p', path, r.pct(80) ? g.text(big) : ""); }
  else if (kind == 1) { path = "giant.c"; long sz[] = {(2L << 30) - 1, 2L << 30, (2L << 30) + 1, 3L << 30, (4L << 30) - 1, 4L << 30, (4L << 30) + 1, (4L << 30) + 100, 5L << 30, (8L << 30) + 17, 1L << 40}; g.add('s', path, "int x;\n", sz[r.below(11)]); }
  else if (kind == 2) { path = "adir.c"; g.add('d', path); }
  else if (kind == 3) { path = "link.c"; g.addSource("", big); g.add('l', path, r.pct(70) ? g.sources[0] : "nowhere"); }
  else path = g.addSource(r.pct(50) ? "" : "d", big);
  if (kind > 3 && r.pct(30)) { // exact sizes around the block size of a stream
    str &t = g.p.files.back().data; long s = (long[]){4095, 4096, 4097, 8192, 1, 2, 0, 12288}[r.below(8)]; if ((long)t.size() < s) { str u = t.empty() ? str("x\n") : t; while ((long)t.size() < s) t += u; } t.resize(s); }
  g.addSource("other");
  Proc &q = g.script(); int n = 1 + r.below(4);
  for (int i = 0; i < n; i++) {
    str s = "a" + std::to_string(i); strs a = {s, path}; if (r.pct(20)) a = {s, "virtual/" + path, path};
    op(q, "new", a); int m = 1 + r.below(4);
    for (int j = 0; j < m; j++) op(q, "q", {s, (const char *[]){"contents", "contents", "size", "loc", "lic", "annot", "contents"}[r.below(7)]});
    if (r.pct(40)) { op(q, "q", {s, "parse"}); op(q, "q", {s, "contents"}); }
    if (r.pct(60)) op(q, "free", {s});
  }
  op(q, "settle"); op(q, "new", {"f", path}); op(q, "q", {"f", "contents"}); op(q, "q", {"f", "loc"}); op(q, "q", {"f", "lic"}); op(q, "q", {"f", "size"}); op(q, "new", {"o", g.sources.back()}); op(q, "q", {"o", "contents"}); op(q, "q", {"o", "loc"});
  if (r.pct(60)) planFaults(g, d, 1 + r.below(4), true, {"open", "read", "seek", "close", "fstat", "lstat", "access", "readlink", "dup"});
  if (r.pct(25)) g.p.faults.push_back({0, "read", path, (long)r.below(4), "short", (long)(1 + r.below(50))});
  if (kind > 3 && r.pct(60)) {
    Trace t = d.dry(g.p); long steps = t.r.steps; if (steps > 1000000) steps -= 1000000; str cur;
    for (auto &f : g.p.files) if (f.path == path) cur = f.data;
    // a log that keeps growing while reads of it fail
    bool grows = r.pct(12); if (grows) { g.p.faults.push_back({0, "read", path, (long)r.below(4), r.pct(60) ? "short" : "EINTR", (long)(1 + r.below(2000))}); g.p.faults.push_back({0, "read", path, (long)(1 + r.below(5)), r.pct(60) ? "EINTR" : "EIO", 0}); }
    int ne = grows ? 6 + r.below(12) : 1 + r.below(4); std::vector<long> at; for (int i = 0; i < ne; i++) at.push_back(r.below(steps + 1)); std::sort(at.begin(), at.end());
    bool shrink = !grows && r.pct(50); // in place a file only grows or only shrinks: both within one read cannot be told apart by any reader
    for (int i = 0; i < ne; i++) {
      int k = r.below(grows ? 2 : 5); Edit e{at[i], "", path, ""};
      if (k < 2 && !shrink) { e.op = "append"; e.arg = g.text(); if (e.arg.empty()) e.arg = "x\n"; cur += e.arg; }
      else if (k < 2) { e.op = "truncate"; size_t n = r.pct(30) ? 0 : r.below(cur.size() + 1); e.arg = std::to_string(n); cur.resize(n); }
      else if (k == 2) { e.op = "delete"; cur = ""; }
      else { e.op = "replace"; e.arg = r.pct(30) ? str(cur.size(), 'q') : r.pct(50) ? g.text(cur.size() + 5000) : g.text(); cur = e.arg; }
      g.p.edits.push_back(e);
    }
  }
  return g.p;
}
// texts the file held, in the order of its life (nullopt-like: absent = no entry)
static std::vector<std::pair<bool, str>> versionsOf(const Plan &p, const str &path) {
  std::vector<std::pair<bool, str>> v; bool have = false; str cur;
  for (auto &f : p.files) if (f.path == path && (f.type == 'f' || f.type == 'p')) { have = true; cur = f.data; }
  for (auto &f : p.files) if (f.path == path && f.type == 'l') for (auto &t : p.files) if (t.path == f.data && t.type == 'f') { have = true; cur = t.data; }
  v.push_back({have, cur});
  std::vector<Edit> es = p.edits; std::stable_sort(es.begin(), es.end(), [](const Edit &a, const Edit &b) { return a.step < b.step; });
  for (auto &e : es) if (e.path == path) {
    if (e.op == "append") { if (have) cur += e.arg; }
    else if (e.op == "truncate") { if (have) cur.resize(atol(e.arg.c_str()), 0); }
    else if (e.op == "delete") { have = false; cur = ""; }
    else if (e.op == "replace" || e.op == "create") { have = true; cur = e.arg; }
    v.push_back({have, cur});
  }
  return v;
}
static Violation checkC03(const Plan &p, Director &d, Result &r) {
  r = d.run(p);
  Violation v = endings(p, d, r, false, true, false); if (v.is) return v;
  std::map<str, Obj> S; bool settled = false; std::map<str, str> lastSize;
  for (size_t i = 0; i < p.procs[0].ops.size(); i++) {
    const Op &o = p.procs[0].ops[i];
    if (o.name == "settle") settled = true;
    if (o.name == "new") { Obj x; x.path = o.a[1]; if (o.a.size() > 2) x.disk = o.a[2]; S[o.a[0]] = x; }
    if (o.name != "q" || !S.count(o.a[0])) continue;
    const Obs *ob = r.find(0, i, "q"); if (!ob) continue;
    const Obj &x = S[o.a[0]]; str file = x.disk.size() ? x.disk : x.path, k = o.a[1];
    auto vs = versionsOf(p, file); bool special = false, sparse = false;
    for (auto &f : p.files) if (f.path == file && f.type == 's') special = sparse = true;
    for (auto &f : p.files) if (f.path == file && (f.type == 'd')) special = true;
    if (settled) vs.erase(vs.begin(), vs.end() - 1);
    bump("answers-compared");
    if (k == "contents") {
      bool ok = ob->text == "none size=0";
      bool mustRead = settled && !special && vs[0].first && vs[0].second.size();
      bool pipe = false; for (auto &f : p.files) if (f.path == file && f.type == 'p') pipe = true;
      if (mustRead && !pipe) ok = false;
      for (auto &w : vs) if (w.first && !sparse) { if (ob->text == contentsText(w.second.c_str(), w.second.size())) ok = true; if (w.second.empty() && ob->text == "none size=0") ok = true; }
      if (!ok) return vio("text", strf("operation %zu: text of %s is \"%s\"; the file held %zu version(s)%s, the first of %zu bytes", i, file.c_str(), ob->text.c_str(), vs.size(), settled ? " (faults have stopped)" : "", vs[0].second.size()));
      if (ob->text.find("none") == str::npos) bump("texts-read"); else bump("texts-unreadable");
    } else if (k == "size") {
      bool ok = ob->text == "0"; for (auto &w : vs) if (w.first && ob->text == std::to_string(w.second.size())) ok = true;
      if (settled && !special && vs[0].first && vs[0].second.size() && ob->text == "0") { ok = false; for (auto &f : p.files) if (f.path == file && f.type == 'p') ok = true; }
      if (!ok) return vio("size", strf("operation %zu: size of %s is %s, no version had this size", i, file.c_str(), ob->text.c_str()));
    } else if (k == "loc" || k == "lic") {
      // the analysis of one version, or of nothing
      bool ok = ob->text.empty(); strs wants;
      for (auto &w : vs) if (w.first && !special) {
        Plan q = p; q.edits.clear(); for (auto &f : q.files) if (f.path == file && f.type == 'f') f.data = w.second; for (auto &f : q.files) if (f.type == 'p') f.type = 'f';
        str a = askObj(q, d, x, k); wants.push_back(a); if (a == ob->text) ok = true;
        if (!ok) { // the name alone decided the language, because the text could not be read then
          Plan n = q; for (auto &f : n.files) if (f.path == file) { f.type = 'd'; f.data = ""; } // (a directory: exists, unreadable)
          str lang = askObj(n, d, x, "lang"); Obj y = x; y.hasContents = true; y.contents = w.second.c_str(); y.lang = lang;
          if (lang != "(none)" && w.second.find('\0') == str::npos && askObj(q, d, y, k) == ob->text) ok = true;
          if (!ok && !settled && w.second.find('\0') != str::npos) { ok = true; bump("analysis-unchecked:nul"); } // (such a text cannot be supplied, to ask for it in another language)
          // or a later step of the detection did, because an earlier one could not read: the answer for the text in one of the languages named
          if (!ok && !settled && w.second.find('\0') == str::npos) { for (auto &e : locTable(ob->text)) { y.lang = e.first; if (askObj(q, d, y, k) == ob->text) ok = true; }
            // or the language was found in another version (the detection looks at the file itself, more than once)
            for (auto &v : vs) if (!ok && v.first && v.second != w.second) { Plan l = q; for (auto &f : l.files) if (f.path == file && f.type == 'f') f.data = v.second; y.lang = askObj(l, d, x, "lang"); if (!isAbnormal(y.lang) && y.lang != "(none)" && askObj(q, d, y, k) == ob->text) ok = true; } }
        }
      }
      if (settled && !special && vs[0].first && wants.size() && ob->text != wants[0]) { ok = false; for (auto &f : p.files) if (f.path == file && f.type == 'p' && ob->text.empty()) ok = true; }
      if (!ok) return vio("analysis", strf("operation %zu: %s of %s is \"%s\", no version of the file gives this (first: \"%s\")", i, k.c_str(), file.c_str(), clip(ob->text).c_str(), wants.size() ? clip(wants[0]).c_str() : ""));
    }
  }
  return Violation();
}
// ---------------------------------------------------------------- C04
static str oddName(Rng &r, bool dir) {
  static const char *f[] = {"a.c", ".hidden", "b b.py", "x'y.rb", "q\"z.h", "-s", "new\nline.c", "tab\t.c", "\xc3\xa9t\xc3\xa9.java", "\xff\xfe.c", "...", "..a", "a.", "Makefile", "core", "CVS", "%s%n.c", "a:b", "*", "~", "node_modules", "x.tar.gz", "README", ".git", "$HOME", "`id`", "a\\b.c", ";", "&", "#x#", "x~", "lost+found", "nul", ".#lock", "0", "zz.o", "image.png"};
  int k = r.below(10);
  if (k < 5) return f[r.below(sizeof f / sizeof *f)];
  if (k < 7) return strf("%c%llu%s", (char)('a' + r.below(26)), (unsigned long long)r.below(1000), dir ? "" : (const char *[]){".c", ".py", "", ".txt", ".h", ".gif"}[r.below(6)]);
  if (k < 8) return str((size_t[]){1, 2, 31, 32, 63, 64, 127, 128, 200, 254, 255}[r.below(11)], (char)('a' + r.below(26)));
  if (k < 9) return "." + strf("h%llu", (unsigned long long)r.below(50));
  return strf("d%llu", (unsigned long long)r.below(100));
}
static void buildTree(Gen &g, const str &dir, int depth, int &budget) {
  Rng &r = g.r; int n = r.below(8); if (r.pct(4)) n = 200;
  std::set<str> used; strs names;
  for (int i = 0; i < n && budget > 0; i++) {
    int k = r.below(20); bool sub = k < 6 && depth > 0; str nm = oddName(r, sub);
    if (r.pct(15) && names.size()) { // names that share a prefix with a neighbour
      nm = r.pick(names); if (r.pct(50)) nm += "x"; else if (nm.size() > 1) nm.pop_back(); if (nm == "." || nm == ".." ) continue; if (nm.size() > 255) nm.resize(255); }
    if (used.count(nm)) continue; used.insert(nm); names.push_back(nm); budget--;
    str path = dir.empty() ? nm : dir + "/" + nm;
    if (path.size() > 3000) continue;
    if (sub) { g.add('d', path); buildTree(g, path, depth - 1, budget); }
    else if (k < 15 && g.sources.size() && r.pct(10)) { g.add('h', path, r.pick(g.sources)); }
    else if (k < 15) { g.add('f', path, r.pct(20) ? "" : "int x;\n", 0, r.pct(8) ? (int[]){0, 0755, 0444, 0600}[r.below(4)] : 0644); g.sources.push_back(path); }
    else if (k < 18) { str up; for (size_t j = 0; j < split(dir, '/').size() && dir.size(); j++) up += "../"; g.add('l', path, r.pct(25) ? "." : r.pct(30) ? ".." : r.pct(30) ? "nowhere" : g.sources.size() ? up + r.pick(g.sources) : "x"); }
    else if (r.pct(75)) g.add('p', path, "int y;\n");
    else g.add('k', path);
  }
}
static Plan genC04(u64 seed, Director &d) {
  Gen g("C04", seed); Rng &r = g.r; g.memoryKnobs(); g.p.knob["order"] = r.pct(85) ? 1 + r.below(1000000) : 0; g.p.knob["dtype"] = r.below(3);
  int mode = r.below(16); str root = ".";
  if (mode == 0) { // deep
    int depth = r.pct(30) ? 900 + r.below(800) : 20 + r.below(200); str c = r.pct(70) ? "d" : str(1 + r.below(3), 'e'); str p; int every = 1 + r.below(40);
    for (int i = 0; i < depth; i++) { p += (i ? "/" : "") + c; if (i % every == 0 || i == depth - 1) { g.add('f', p + "/f.c", "int x;\n"); g.sources.push_back(p + "/f.c"); } }
  } else if (mode == 1) { // long names all the way: crosses the longest path the system accepts
    str p; int k = 10 + r.below(9); for (int i = 0; i < k; i++) { p += (i ? "/" : "") + str(r.pct(60) ? 255 : 200 + r.below(56), (char)('a' + i)); g.add('f', p + "/f.c", ""); g.sources.push_back(p + "/f.c"); if (r.pct(60)) g.add('f', p + "/" + str(1 + r.below(255), 'z'), ""); }
  } else if (mode == 2) { // wide
    int n = r.pct(30) ? 4000 + r.below(5000) : 300 + r.below(2500); for (int i = 0; i < n; i++) g.add('f', strf("w/f%d", i), ""); for (int i = 0; i < 20; i++) g.add('f', strf("w/s%d/x", i), "");
  } else { int budget = 10 + r.below(200); buildTree(g, "", 1 + r.below(6), budget); if (r.pct(10)) g.add('d', "empty"); }
  strs dirs; for (auto &f : g.p.files) if (f.type == 'd') dirs.push_back(f.path);
  if (mode > 1 && r.pct(30) && dirs.size()) { root = r.pick(dirs); if (r.pct(30)) root = "@/tree/" + root; }
  else if (r.pct(10)) root = "@/tree"; else if (r.pct(10)) root = "./";
  Proc &q = g.script(); int reps = 1 + r.below(2);
  for (int i = 0; i < reps; i++) { op(q, "lnew", {"l"}); op(q, "ldir", {"l", root}); if (r.pct(15) && dirs.size()) op(q, "ldir", {"l", r.pick(dirs)}); op(q, "lq", {"l", ""}); op(q, "lfree", {"l"}); }
  if (r.pct(30) && mode > 1) { strs a = {"-d"}; if (root != "." || r.pct(30)) a.push_back(root); g.cli(a); }
  if (r.pct(45)) {
    if (g.p.files.size() < 600) planFaults(g, d, 1 + r.below(4), true, {"opendir", "readdir", "lstat", "fstat", "access", "readlink", "getcwd"});
  }
  if (r.pct(10)) g.p.knob["fdcap"] = 1 + r.below(12);
  return g.p;
}
// everything reachable below root: path -> what stands in the list
static void expectDir(const std::map<str, std::vector<const FileSpec *>> &kids, const std::map<str, const FileSpec *> &node, const str &dir, const str &shown, const std::set<str> &deadDirs, const std::map<str, std::set<str>> &cut, const std::set<str> &deadStat, strs &out) {
  (void)node;
  if (deadDirs.count(shown) || shown.size() >= 4096) return;
  auto k = kids.find(dir); if (k == kids.end()) return;
  auto c = cut.find(shown);
  for (auto f : k->second) {
    str nm = f->path.substr(f->path.rfind('/') + 1);
    if (f->path.find('/') == str::npos) nm = f->path;
    if (c != cut.end() && !c->second.count(nm)) continue;
    str s = shown + "/" + nm;
    if (deadStat.count(s) || s.size() >= 4096) continue;
    if (f->type == 'd') { if (nm[0] != '.') expectDir(kids, node, f->path, s, deadDirs, cut, deadStat, out); }
    else if (f->type == 'f' || f->type == 's' || f->type == 'h') out.push_back(s);
  }
}
struct TreeModel {
  std::deque<FileSpec> extra; std::map<str, std::vector<const FileSpec *>> kids; std::map<str, const FileSpec *> node;
  explicit TreeModel(const Plan &p) {
    for (auto &f : p.files) if (f.type != 't' && !node.count(f.path)) node[f.path] = &f;
    for (auto &f : p.files) { // implied parents
      if (f.type == 't') continue;
      str q = f.path; size_t s;
      while ((s = q.rfind('/')) != str::npos) { q = q.substr(0, s); if (node.count(q)) continue; FileSpec d; d.type = 'd'; d.path = q; extra.push_back(d); node[q] = &extra.back(); }
    }
    for (auto &n : node) { size_t s = n.first.rfind('/'); kids[s == str::npos ? "" : n.first.substr(0, s)].push_back(n.second); }
  }
};
// Failures of the scan that is operation op of process proc. Directory names are as the program spelled them.
static strs expectedScan(const TreeModel &t, const str &root, const Result &r, int proc, int op) {
  std::set<str> dead, deadStat; std::map<str, std::set<str>> cut;
  auto squash = [](const str &s) { str o; for (char c : s) if (c != '/' || o.empty() || o.back() != '/') o += c; return o; };
  str sroot = squash(root); while (sroot.size() > 1 && sroot.back() == '/') sroot.pop_back();
  for (auto &o : r.obs) if (o.proc == proc && o.op == op) {
    auto trim = [&](str s) { s = squash(s); while (s.size() > 1 && s.back() == '/') s.pop_back(); return s; };
    if (o.kind == "~dirfail") dead.insert(trim(o.text));
    else if (o.kind == "~statfail") deadStat.insert(trim(o.text));
    else if (o.kind == "~dircut") { strs w = split(o.text, ' '); auto &c = cut[trim(unesc(w[0]))]; for (size_t i = 1; i < w.size(); i++) c.insert(unesc(w[i])); }
  }
  strs out; str rel = relTree(sroot); if (rel == ".") rel = ""; if (sroot == "@/tree") rel = "";
  while (rel.size() && rel.back() == '/') rel.pop_back();
  expectDir(t.kids, t.node, rel, sroot, dead, cut, deadStat, out);
  std::sort(out.begin(), out.end()); return out;
}
// Paths that were looked at again with success after a look that failed: whether what lies there is listed is up to the program.
static strs lookedAgain(const Result &r, int proc, int op) {
  std::set<str> bad, again; auto trim = [](const str &s) { str o; for (char c : s) if (c != '/' || o.empty() || o.back() != '/') o += c; while (o.size() > 1 && o.back() == '/') o.pop_back(); return o; };
  for (auto &o : r.obs) if (o.proc == proc && o.op == op) {
    if (o.kind == "~dirfail" || o.kind == "~statfail") bad.insert(trim(o.text)); else if (o.kind == "~dircut") bad.insert(trim(unesc(split(o.text, ' ')[0])));
    else if (o.kind == "~lookok" && bad.count(trim(o.text))) again.insert(trim(o.text));
  }
  return strs(again.begin(), again.end());
}
static void dropBelow(strs &l, const strs &roots) {
  for (auto &x : roots) l.erase(std::remove_if(l.begin(), l.end(), [&](const str &p) { return p == x || (p.size() > x.size() && p.compare(0, x.size(), x) == 0 && p[x.size()] == '/'); }), l.end());
}
static str squashSlashes(const str &s) { str o; for (char c : s) if (c != '/' || o.empty() || o.back() != '/') o += c; return o; }
static str diffLists(const strs &got, const strs &want) {
  strs a, b; std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(a)); std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(b));
  str s; if (a.size()) s += strf("%zu not expected (first %s)", a.size(), esc(clip(a[0], 120)).c_str()); if (b.size()) s += strf("%s%zu missing (first %s)", a.size() ? ", " : "", b.size(), esc(clip(b[0], 120)).c_str()); return s;
}
static Violation checkC04(const Plan &p, Director &d, Result &r) {
  r = d.run(p);
  Violation v = endings(p, d, r, false, true, false); if (v.is) return v;
  TreeModel t(p); std::map<str, strs> L; std::map<str, strs> again;
  for (size_t pi = 0; pi < p.procs.size(); pi++) {
    const Proc &q = p.procs[pi];
    if (q.cli) {
      str root = q.argv.size() > 1 ? q.argv[1] : "."; const Obs *o = r.find(pi, -2, "stdout"); strs got; str text = o ? o->text : "";
      if (p.faults.size() || p.k("fdcap")) continue; // (the argument itself may fail: C05)
      bool nl = false; for (auto &f : p.files) if (f.path.find('\n') != str::npos) nl = true; if (nl) continue;
      for (auto &l : linesOf(text)) { size_t s = l.find('\t'); got.push_back(squashSlashes(s == str::npos ? l : l.substr(s + 1))); }
      got.erase(std::remove_if(got.begin(), got.end(), [](const str &x) { return x.size() >= 4096; }), got.end());
      std::sort(got.begin(), got.end()); strs want; for (auto &x : expectedScan(t, root, r, pi, 0)) want.push_back(x[0] == '@' ? d.base + "/M" + x.substr(1) : x); std::sort(want.begin(), want.end());
      bump("scans-compared"); if (got != want) return vio("scan", "ohcount -d " + root + ": " + diffLists(got, want));
      continue;
    }
    for (size_t i = 0; i < q.ops.size(); i++) {
      const Op &o = q.ops[i];
      if (o.name == "lnew") { L[o.a[0]] = {}; again[o.a[0]] = {}; }
      if (o.name == "ldir" && L.count(o.a[0])) { for (auto &x : lookedAgain(r, pi, i)) again[o.a[0]].push_back(x); strs w = expectedScan(t, o.a[1], r, pi, i); auto &l = L[o.a[0]]; l.insert(l.end(), w.begin(), w.end()); }
      if (o.name == "lq" && L.count(o.a[0])) {
        const Obs *ob = r.find(pi, i, "lq"); if (!ob) return vio("scan", "no answer");
        strs got, want = L[o.a[0]]; for (auto &l : linesOf(ob->text)) { str x = squashSlashes(unesc(l)); str b = d.base + "/M"; if (x.compare(0, b.size(), b) == 0) x = "@" + x.substr(b.size()); got.push_back(x); }
        got.erase(std::remove_if(got.begin(), got.end(), [](const str &x) { return x.size() >= 4096; }), got.end()); // reachable, but not by that path: optional
        if (again[o.a[0]].size()) { dropBelow(got, again[o.a[0]]); dropBelow(want, again[o.a[0]]); bump("looked-again"); }
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); bump("scans-compared"); bump("entries-compared", want.size());
        if (got != want) return vio("scan", strf("operation %zu: ", i) + diffLists(got, want));
      }
    }
  }
  return Violation();
}
// ---------------------------------------------------------------- C05
static Plan genC05(u64 seed, Director &d) {
  Gen g("C05", seed); Rng &r = g.r; g.memoryKnobs(); g.ioKnobs();
  bool lots = r.pct(5); // many files, many of them in trouble
  int n = lots ? 15 + r.below(40) : 2 + r.below(6); for (int i = 0; i < n; i++) g.addSource(r.pct(40) ? "" : strf("d%llu", (unsigned long long)r.below(3)), r.pct(5) ? 9000 : 0);
  strs names = g.sources; bool dir = r.pct(45), lib = r.pct(35); str top;
  if (r.pct(15)) { g.add('f', "e/empty.pl", ""); names.push_back("e/empty.pl"); }
  if (r.pct(10)) { g.add('d', "adir"); if (!dir && !lib) names.push_back("adir"); }
  if (lib) {
    Proc &q = g.script();
    if (dir) { op(q, "lnew", {"l"}); op(q, "ldir", {"l", "."}); } else { op(q, "lnew", {"l"}); for (auto &s : names) op(q, "ladd", {"l", s}); if (r.pct(20)) op(q, "ladd", {"l", "missing.h"}); }
    int m = 1 + r.below(3); for (int i = 0; i < m; i++) op(q, "lq", {"l", (const char *[]){"loc", "lic", "annot", "ents", "lang", "pll"}[r.below(6)]}); if (r.pct(50)) op(q, "lan", {"l"}); op(q, "lfree", {"l"});
  } else {
    strs a = {(const char *[]){"-a", "-d", "-i", "-l", "-re", "-s"}[r.below(6)]}; if (dir) { if (r.pct(60)) a.push_back("."); } else { a.insert(a.end(), names.begin(), names.end()); if (r.pct(20)) a.push_back("missing.h"); }
    g.cli(a);
  }
  // victims: persistent or transient trouble with some files and directories
  Trace t = d.dry(g.p); strs paths; std::map<str, int> per;
  for (auto &e : t.ev) if (e.site == "open" || e.site == "read" || e.site == "opendir" || e.site == "lstat" || e.site == "access" || e.site == "readlink" || e.site == "readdir" || e.site == "seek") if (!per[e.path + "|" + e.site]++) paths.push_back(e.path + "|" + e.site);
  int m = lots ? 5 + r.below(40) : 1 + r.below(3);
  for (int i = 0; i < m && paths.size(); i++) {
    strs w = split(r.pick(paths), '|'); if (w.size() != 2 || w[0] == "(temp)" || w[0] == "/tmp/ohcount.log") continue;
    strs acts = w[1] == "read" ? strs{"EIO", "ESTALE", "EINTR", "eof"} : w[1] == "seek" ? strs{"EIO", "ESPIPE"} : w[1] == "readdir" ? strs{"EIO", "ENOENT"} : strs{"EACCES", "ENOENT", "EIO", "EMFILE", "ELOOP", "ESTALE"};
    g.p.faults.push_back({0, w[1], w[0], r.pct(55) ? -1 : (long)r.below(per[w[0] + "|" + w[1]] + 1), r.pick(acts), 0});
  }
  return g.p;
}
static Violation checkC05(const Plan &p, Director &d, Result &r) {
  r = d.run(p);
  Violation v = endings(p, d, r, true); if (v.is || r.crashed || r.hang) return v;
  if (r.state[0] == ST_EXIT || (r.state[0] == ST_DONE && 0)) { if (inputsAbnormal(p, d)) return Violation(); return vio("exit", strf("the process gives up with status %d", r.code[0])); }
  const Proc &q = p.procs[0];
  auto plain = [](str s) { s = squashSlashes(s); while (s.compare(0, 2, "./") == 0) s = s.substr(2); return s; };
  std::set<str> faulty, never, deadDir; // faulty: anything planned; never: text can never be read
  for (auto &f : p.faults) {
    str n = plain(f.path); if (f.site == "opendir" || f.site == "readdir" || f.site == "lstat" || f.site == "access" || f.site == "readlink") deadDir.insert(n);
    faulty.insert(n); if (f.nth == -1 && (f.site == "open" || (f.site == "read" && f.act != "eof") || (f.site == "seek" && 0))) never.insert(n);
  }
  auto isFaulty = [&](const str &path) { str s = plain(path); if (faulty.count(s) || faulty.count(".") ) return true; for (auto &x : deadDir) if (s.compare(0, x.size() + 1, x + "/") == 0) return true; return false; };
  if (faulty.count(".") || faulty.count("")) { bump("root-faulty"); return Violation(); }
  strs all; bool dir;
  if (q.cli) { dir = q.argv.size() < 2 || q.argv[1] == "."; if (!dir) all = strs(q.argv.begin() + 1, q.argv.end()); }
  else { dir = false; for (auto &o : q.ops) { if (o.name == "ldir") dir = true; if (o.name == "ladd") all.push_back(o.a[1]); } }
  if (dir) for (auto &f : p.files) if (f.type == 'f') all.push_back("./" + f.path);
  if (q.cli) {
    str flag = q.argv[0]; const Obs *ob = r.find(0, -2, "stdout"); str out = ob ? ob->text : "";
    if (flag == "-s") {
      Table total, got; long fc = -1; got = summaryTable(out, &total, &fc); Table want; bool free = false;
      for (auto &f : all) { if (isFaulty(f)) { if (!never.count(plain(f))) free = true; continue; } Obj x; x.path = f; str a = askObj(p, d, x, "loc"); if (isAbnormal(a)) { bump("plans-set-aside"); return Violation(); } for (auto &e : locTable(a)) { auto &w = want[e.first]; w.resize(4); for (int k = 0; k < 4; k++) w[k] += e.second[k]; } }
      bump("reports-compared");
      if (!free) { if (got != want) return vio("report", "summary with unreadable files differs from the sum of the readable ones: " + clip(out, 1200)); }
      else for (auto &e : want) for (int k = 0; k < 4; k++) if (!got.count(e.first) || got[e.first][k] < e.second[k]) return vio("report", "summary lacks lines of the unaffected files: " + clip(out, 1200));
      return Violation();
    }
    str body = cliBody(flag, out); auto got = bag(linesOf(body)); bool transientVictim = false; std::set<str> victimNames; strs want;
    bool ragged = false; // some text does not end in a line end, so that the annotations of two files share a line
    for (auto &f : p.files) if (f.type == 'f' && f.data.size() && f.data.back() != '\n') ragged = true;
    for (auto &f : all) {
      if (isFaulty(f)) { victimNames.insert(plain(f)); victimNames.insert(f.substr(f.rfind('/') + 1)); if (!never.count(plain(f))) transientVictim = true; continue; }
      str one = askCli(p, d, {flag, f}); if (isAbnormal(one)) { bump("plans-set-aside"); return Violation(); }
      if (one.compare(0, 13, "Bad argument:") == 0) { if (flag == "-i") continue; }
      str b = cliBody(flag, one);
      if (flag == "-a" && ragged) { if (body.find(b) == str::npos) return vio("report", "ohcount -a: annotation of the unaffected file " + f + " missing: " + clip(b)); continue; }
      for (auto &l : linesOf(b)) want.push_back(l);
    }
    if (flag == "-a" && ragged) { bump("reports-compared"); return Violation(); }
    for (auto &e : bag(want)) { if (got[e.first] < e.second) return vio("report", "ohcount " + flag + ": line missing for an unaffected file: " + clip(e.first)); got[e.first] -= e.second; }
    bump("reports-compared");
    for (auto &e : got) if (e.second > 0) {
      bool ok = false; str l = e.first;
      if (l.compare(0, 14, "Bad argument: ") == 0) ok = isFaulty(l.substr(14)) || plain(l.substr(14)) == "missing.h";
      else if (flag == "-d") { size_t t = l.find('\t'); ok = t != str::npos && isFaulty(l.substr(t + 1)) && e.second == 1; }
      else if (transientVictim && (flag == "-a" || flag == "-re")) ok = true;
      else if (transientVictim) { for (auto &n : victimNames) if (l.size() >= n.size() && l.compare(l.size() - n.size(), n.size(), n) == 0) ok = true; }
      if (!ok) return vio("report", "ohcount " + flag + ": unexpected line: " + clip(l));
    }
    return Violation();
  }
  // library: entry by entry
  for (size_t i = 0; i < q.ops.size(); i++) {
    const Op &o = q.ops[i]; const Obs *ob = r.find(0, i, o.name); if (!ob) continue;
    if (o.name == "lq") {
      std::map<str, strs> ans; for (auto &l : linesOf(ob->text)) { strs w = split(l, ' '); ans[plain(unesc(w[0]))].push_back(w.size() > 1 ? unesc(w[1]) : ""); }
      for (auto &f : all) {
        str n = plain(f); if (isFaulty(f)) { if (never.count(n)) for (auto &x : ans[n]) if ((o.a[1] == "loc" || o.a[1] == "lic" || o.a[1] == "pll") ? x.size() > 0 : (o.a[1] == "annot" || o.a[1] == "ents") ? x.compare(0, 4, "n=0 ") != 0 : false) return vio("report", "unreadable " + n + " contributes " + o.a[1] + " \"" + clip(x) + "\""); continue; }
        Obj x; x.path = f; str a = askObj(p, d, x, o.a[1]); if (isAbnormal(a)) { bump("plans-set-aside"); return Violation(); }
        bump("answers-compared");
        if (ans[n].size() != 1 || ans[n][0] != a) return vio("report", strf("operation %zu: %s of unaffected %s: %zu entries, \"%s\" instead of \"%s\"", i, o.a[1].c_str(), n.c_str(), ans[n].size(), ans[n].size() ? clip(ans[n][0]).c_str() : "", clip(a).c_str()));
      }
    } else if (o.name == "lan") {
      Table want, got = locTable(ob->text); bool free = false;
      for (auto &f : all) { if (isFaulty(f)) { if (!never.count(plain(f))) free = true; continue; } Obj x; x.path = f; for (auto &e : locTable(askObj(p, d, x, "loc"))) { auto &w = want[e.first]; w.resize(4); for (int k = 0; k < 4; k++) w[k] += e.second[k]; } }
      if (!free && got != want) return vio("report", "totals with unreadable files differ from the sum of the readable ones: " + clip(ob->text));
      if (free) for (auto &e : want) for (int k = 0; k < 4; k++) if (!got.count(e.first) || got[e.first][k] < e.second[k]) return vio("report", "totals lack lines of the unaffected files: " + clip(ob->text));
    }
  }
  return Violation();
}
// ---------------------------------------------------------------- C08
static const std::set<str> DIFF_SITES = {"openw", "write", "closew", "mkstemp", "unlink", "popen", "pread", "pclose", "rename", "mkdir", "fsync", "access", "dup", "truncate", "@temp"};
static Plan genC08(u64 seed, Director &d) {
  Gen g("C08", seed); Rng &r = g.r; g.memoryKnobs(); if (r.pct(60)) g.p.knob["chunk"] = 1 + r.below(1000000); if (r.pct(40)) g.p.knob["namespace"] = 1 + r.below(16);
  bool small = r.pct(15);
  str a = g.text(small ? 0 : 100000 + r.below(40000)), nm = g.name, b = reviseText(g, a); if (r.pct(30)) b = g.text(r.pct(50) ? 105000 : 0); if (r.pct(10)) b = a; if (r.pct(8)) b = "";
  if (r.pct(50)) std::swap(a, b);
  g.add('f', "old/" + nm, a); g.add('f', "new/" + nm, b);
  Proc &q = g.script(); op(q, "new", {"a", "old/" + nm}); op(q, "new", {"b", "new/" + nm});
  if (r.pct(40)) { op(q, "q", {"a", "loc"}); op(q, "q", {"b", "lic"}); }
  int n = 1 + r.below(2); if (r.pct(20)) op(q, "dnew", {"D"});
  for (int i = 0; i < n; i++) op(q, "diff", {r.pct(70) ? "a" : "b", r.pct(70) ? "b" : "a"});
  planFaults(g, d, 1 + (r.pct(35) ? 1 + r.below(2) : 0), true, DIFF_SITES);
  if (r.pct(8)) g.p.faults.push_back({0, "pclose", "*", -1, "ECHILD", 0}); // the program that started it ignores its children
  if (r.pct(6)) g.p.knob["fdcap"] = 1 + r.below(3);
  return g.p;
}
static Violation checkC08(const Plan &p, Director &d, Result &r) {
  r = d.run(p);
  Violation v = endings(p, d, r, true); if (v.is || r.crashed || r.hang) return v;
  if (r.state[0] == ST_EXIT) { bump("failed-loudly"); if (r.code[0] == 0) return vio("status", "the comparison ends the process with status 0"); return Violation(); }
  std::function<bool(const Obj &)> none; str m = cmpScript(p, 0, r, d, none);
  if (m.size()) { if (inputsAbnormal(p, d)) { bump("plans-set-aside"); return Violation(); } return vio("delta", m); }
  bump("exact-in-spite"); return Violation();
}
// ---------------------------------------------------------------- C09
static Plan genC09(u64 seed, Director &d) {
  Gen g("C09", seed); Rng &r = g.r; g.memoryKnobs(); g.ioKnobs(); if (r.pct(50)) g.p.knob["namespace"] = 1 + r.below(64);
  int kind = r.below(10);
  if (kind < 4) { // comparison through temporary files
    str a = g.text(100000 + r.below(10000)), nm = g.name, b = r.pct(60) ? reviseText(g, a) : g.text(r.pct(30) ? 105000 : 0); if (r.pct(50)) std::swap(a, b);
    g.add('f', "old/" + nm, a); g.add('f', nm, b); g.sources = {"old/" + nm, nm}; Proc &q = g.script(); op(q, "new", {"a", "old/" + nm}); op(q, "new", {"b", nm}); if (r.pct(30)) op(q, "q", {"a", kindOf(r)}); op(q, "diff", {"a", "b"}); if (r.pct(40)) op(q, "diff", {"b", "a"}); op(q, "free", {"a"}); op(q, "free", {"b"});
  } else {
    int n = 1 + r.below(5); for (int i = 0; i < n; i++) g.addSource(r.pct(50) ? "" : strf("d%llu", (unsigned long long)r.below(3)));
    for (auto &f : g.p.files) if (r.pct(20)) f.mode = (int[]){0444, 0600, 0755, 0666, 0, 0200, 0044, 0311}[r.below(8)]; if (r.pct(60)) g.p.knob["user"] = 1;
    if (r.pct(20)) g.add('l', "ln", r.pct(50) ? g.sources[0] : "nowhere"); if (r.pct(20)) g.add('d', "emptydir"); if (r.pct(10)) g.add('f', "x.orig", "a\n"), g.add('f', "ohcount.log", "keep\n"), g.add('f', "ohcount_diff_Xaaaaaa", "keep\n");
    if (r.pct(10)) { for (int t = 0; t < 60; t++) { const CorpusFile &c = corpus[r.below(corpus.size())]; if (c.name.size() > 3 && c.name.substr(c.name.size() - 3) == ".in") { g.add('f', "k/" + c.name, c.data); g.sources.push_back("k/" + c.name); break; } } }
    if (kind < 7) { strs a = {(const char *[]){"-a", "-d", "-i", "-l", "-re", "-s"}[r.below(6)]}; if (r.pct(50)) a.insert(a.end(), g.sources.begin(), g.sources.end()); g.cli(a); }
    else { Proc &q = g.script(); someOps(g, q, 4 + r.below(16), true, true); op(q, "lnew", {"zz"}); op(q, "ldir", {"zz", "."}); op(q, "lq", {"zz", kindOf(r)}); op(q, "lfree", {"zz"}); op(q, "new", {"v", "virtual/" + g.sources[0], g.sources[0]}); op(q, "q", {"v", "lang"}); op(q, "q", {"v", "loc"}); }
  }
  if (r.pct(70)) planFaults(g, d, 1 + r.below(3), true, {"open", "openw", "read", "seek", "close", "closew", "write", "lstat", "opendir", "readdir", "mkstemp", "unlink", "popen", "pread", "pclose", "rename", "mkdir", "fsync", "access", "readlink", "getcwd", "dup", "truncate", "@temp", "magic_load", "magic_buf", "magic_file"});
  if (r.pct(15)) { Trace t = d.dry(g.p); g.p.faults.push_back({0, "malloc", "*", (long)r.below(t.r.mallocs[0] + 1), "fail", r.pct(20) ? 1 : 0}); }
  if (r.pct(8)) { Trace t = d.dry(g.p); g.p.kills.push_back({0, (long)r.below(t.r.steps + 1)}); }
  return g.p;
}
static Violation checkC09(const Plan &p, Director &d, Result &r) {
  str dir = d.base + "/M";
  rmTree(dir); materialise(p, dir); str before = snapshot(dir + "/tree"); // same world, not run: what it looks like untouched
  auto strip = [](const str &s) { str o; for (auto &l : linesOf(s)) { strs w = split(l, ' '); for (size_t i = 0; i < w.size(); i++) { size_t dot = w[i].find('.'); bool time = i > 0 && dot != str::npos && w[i].find_first_not_of("0123456789.") == str::npos; o += time ? "T " : w[i] + " "; } o += "\n"; } return o; };
  r = d.run(p);
  if (r.harnessError) return vio("harness", "the simulator failed");
  if (r.hang) { bump("run-hung"); return Violation(); }
  if (r.crashed) bump("run-crashed");
  for (auto &o : r.obs) if (o.kind == "!foot") return vio("footprint", o.text);
  str after = snapshot(dir + "/tree");
  if (strip(before) != strip(after)) { strs a = linesOf(strip(before)), b = linesOf(strip(after)), x; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(x)); return vio("footprint", "the analysed tree changed: " + (x.size() ? clip(x[0]) : "?")); }
  bump("trees-compared");
  std::set<str> refused; for (auto &o : r.obs) if (o.kind == "~unlinkfail") refused.insert(o.text);
  bool ended = !r.crashed && (r.state[0] == ST_DONE || r.state[0] == ST_EXIT);
  if (ended) for (auto &o : r.obs) if (o.kind == "~temp" && !refused.count(o.text)) return vio("leftover", "temporary file " + o.text + strf(" remains after the process ended with status %d", r.code[0]));
  return Violation();
}
// ---------------------------------------------------------------- C10
static Plan genC10(u64 seed, Director &d) {
  Gen g("C10", seed); Rng &r = g.r; g.memoryKnobs(); if (r.pct(50)) g.p.knob["chunk"] = 1 + r.below(1000000);
  g.p.knob["namespace"] = (long[]){1, 2, 4, 16, 64, 4096, 1 << 20}[r.below(7)]; g.p.knob["nameseed"] = r.pct(50) ? 0 : r.below(1000); g.p.knob["samepid"] = r.pct(40); g.p.knob["clock"] = r.below(100000);
  int np = 2 + (r.pct(30) ? 1 : 0) + (r.pct(10) ? 1 : 0); bool shared = r.pct(30);
  strs olds, news;
  for (int i = 0; i < np; i++) {
    if (shared && i) { olds.push_back(olds[0]); news.push_back(news[0]); continue; }
    str a = g.text(r.pct(85) ? 100001 + r.below(6000) : 0), nm = g.name, b = r.pct(70) ? reviseText(g, a) : g.text(r.pct(50) ? 101000 : 0);
    str o = strf("p%d/old/", i) + nm, n = strf("p%d/new/", i) + nm; g.add('f', o, a); g.add('f', n, b); olds.push_back(o); news.push_back(n);
  }
  for (int i = 0; i < np; i++) {
    Proc &q = g.script(); op(q, "new", {"a", olds[i]}); op(q, "new", {"b", news[i]}); if (r.pct(30)) op(q, "q", {"a", kindOf(r)});
    int n = 1 + r.below(2); for (int k = 0; k < n; k++) op(q, "diff", {r.pct(60) ? "a" : "b", r.pct(60) ? "b" : "a"}); if (r.pct(30)) op(q, "q", {"b", kindOf(r)}); op(q, "free", {"a"});
  }
  g.p.knob["schedseed"] = 1 + r.below(1u << 30); g.p.knob["stick"] = (long[]){0, 50, 80, 95}[r.below(4)];
  Trace t = d.dry(g.p);
  // files that earlier processes left behind, under the names this run is going to use, and around them
  std::set<str> names; for (auto &o : t.r.obs) if (o.kind == "~tmpname") names.insert(o.text);
  if (r.pct(50)) for (auto &n : names) if (r.pct(60)) g.add('t', n, r.pct(50) ? "stale\nstale > text\n" : str(120000, 's'));
  if (r.pct(20)) names.size() && !names.count("ohcount_diff_Xaaaaaa") ? g.add('t', "ohcount_diff_Xaaaaaa", "x\n") : (void)0; if (r.pct(20)) g.add('t', "ohcount.log", "old log\n");
  if (r.pct(45)) { int k = 1 + r.below(2); for (int i = 0; i < k; i++) g.p.kills.push_back({(int)r.below(np), (long)r.below(t.r.steps / np + 2)}); }
  return g.p;
}
static Violation checkC10(const Plan &p, Director &d, Result &r) {
  r = d.run(p);
  if (r.harnessError) return vio("harness", "the simulator failed");
  if (r.crashed && inputsAbnormal(p, d)) { bump("plans-set-aside"); return Violation(); }
  if (r.crashed) return vio("crash", strf("process %d dies of signal %d", r.crashProc, r.sig));
  if (r.hang) return vio("hang", "processes do not finish");
  for (auto &o : r.obs) if (o.kind == "!interf") return vio("interference", strf("process %d: ", o.proc) + o.text);
  for (size_t i = 0; i < p.procs.size(); i++) {
    if (r.state[i] == ST_KILLED) { bump("processes-killed"); continue; }
    if (r.state[i] == ST_EXIT) { if (inputsAbnormal(p, d)) { bump("plans-set-aside"); return Violation(); } return vio("exit", strf("process %zu ends early with status %d", i, r.code[i])); }
    str m = cmpScript(p, i, r, d); if (m.size()) return vio("answer", strf("process %zu: ", i) + m);
  }
  // what earlier processes left behind is still there, unchanged
  for (auto &f : p.files) if (f.type == 't') {
    FILE *x = fopen((d.base + "/M/T/" + f.path).c_str(), "rb"); str c; if (x) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, x)) > 0) c.append(b, n); fclose(x); }
    if (!x || c != f.data) return vio("interference", "temporary file " + f.path + " of an earlier process was " + (x ? "changed" : "removed"));
  }
  return Violation();
}
// ---------------------------------------------------------------- C13
// Names whose language depends on the text, and texts that make a difference to them: a detection that looks at another
// version of the file than the count does shows best here.
static const char *AMB[] = {"a.h.in", "b.h.in", "c.in", "d.m.in", "e.pl.in", "a.h", "b.h", "c.m", "d.pl", "e.b", "f.cs", "g.inc", "h.bas", "i.pro", "j.st", "k.r", "l.f", "m.pp", "n.mod", "o.aspx", "p.def", "q.fs", "r.rs", "noext", "s.dat"};
static const char *AMBTEXT[] = {"#include <map>\nclass A { int x; };\n", "// plain\nint f(void);\nint g(void);\n", "@interface A\n- (void)x;\n@end\n", "#import <A.h>\n@class B;\n", "% matlab\nfunction x = f(y)\n", "'comment\nDim x As Integer\n", ":- module(a).\nfoo(X) :- bar(X).\n",
  "use strict;\nmy $x = 1;\n# c\n", "#!/usr/bin/perl\nprint 1;\n", "#!/bin/sh\necho a\n", "<?php echo 1; ?>\n", "<html><b>x</b></html>\n", "      program a\nc comment\n      end\n", "program a\n! comment\nend\n", "(* comment *)\nbegin end.\n", "# comment\nx <- 1\n", "namespace a;\nclass B {}\n", "#!/usr/bin/env python\n# a\nx = 1\n",
  "-- *- C++ -*-\n", "template <class T> struct X {};\n", "module a;\nimport std.stdio;\n", "1 rem x\n20 print x\n", "<%@ Page Language=\"VB\" %>\n<a></a>\n", "<%@ Page Language=\"C#\" %>\n<a></a>\n", "/* */\nfn main() {}\n", "# define m4 dnl x\n"};
static str ambText(Gen &g) { Rng &r = g.r; str t = r.pct(60) ? str(AMBTEXT[r.below(sizeof AMBTEXT / sizeof *AMBTEXT)]) : g.text(); if (r.pct(20)) t += AMBTEXT[r.below(sizeof AMBTEXT / sizeof *AMBTEXT)]; if (r.pct(15)) { str pad; int n = 4000 + r.below(9000); while ((int)pad.size() < n) pad += "x = y + 1;\n"; t += pad; } return t; }
static Plan genC13amb(u64 seed, Director &d) {
  Gen g("C13", seed); Rng &r = g.r; g.memoryKnobs(); g.ioKnobs(); r.below(100);
  int n = 1 + r.below(4); std::set<str> have;
  for (int i = 0; i < n; i++) { str path = (r.pct(60) ? str("") : strf("d%llu/", (unsigned long long)r.below(3))) + AMB[r.below(sizeof AMB / sizeof *AMB)]; if (!have.insert(path).second) continue; g.add('f', path, ambText(g)); g.sources.push_back(path); g.nfile++; }
  bool dir = r.pct(60); strs a = {(const char *[]){"-i", "-i", "-d", "-s", "-l"}[r.below(5)]};
  if (dir) { if (r.pct(50)) a.push_back("."); } else a.insert(a.end(), g.sources.begin(), g.sources.end());
  g.cli(a);
  Trace t = d.dry(g.p); int ne = 1 + r.below(2); strs used;
  for (int i = 0; i < ne; i++) { // a new text, or none, between two of the calls that concern a file
    str f = r.pick(g.sources); std::vector<long> at; for (size_t k = 0; k < t.ev.size(); k++) { const str &q = t.ev[k].path; if (q.size() >= f.size() && q.compare(q.size() - f.size(), f.size(), f) == 0) at.push_back(k); }
    if (at.empty()) continue;
    long step = at[r.below(at.size())] + r.below(3); Edit e{step, "replace", f, ambText(g)};
    if (r.pct(12)) { e.op = "delete"; e.arg = ""; }
    g.p.edits.push_back(e); if (e.op == "delete") break;
  }
  return g.p;
}
static Plan genC13(u64 seed, Director &d) {
  if (mix64(seed ^ 0xc13) % 100 < 35) return genC13amb(seed, d);
  Gen g("C13", seed); Rng &r = g.r; g.memoryKnobs(); g.ioKnobs();
  int n = 2 + r.below(7); for (int i = 0; i < n; i++) g.addSource(r.pct(35) ? "" : strf("d%llu%s", (unsigned long long)r.below(3), r.pct(25) ? "/sub" : ""));
  bool dir = r.pct(75); strs a = {(const char *[]){"-i", "-s", "-d", "-l", "-i"}[r.below(5)]};
  if (dir) { if (r.pct(50)) a.push_back("."); } else a.insert(a.end(), g.sources.begin(), g.sources.end());
  g.cli(a);
  Trace t = d.dry(g.p); long steps = t.r.steps; int ne = 1 + r.below(3); strs alive = g.sources; int fresh = 0;
  std::vector<long> at; for (int i = 0; i < ne; i++) at.push_back(r.below(steps + 1)); std::sort(at.begin(), at.end());
  for (int i = 0; i < ne; i++) {
    Edit e{at[i], "", "", ""}; int k = r.below(12); if (alive.empty()) k = 0;
    if (k < 2) { e.op = "create"; e.path = (r.pct(50) ? str("") : "d0/") + strf("n%d_", fresh++); e.arg = g.text(); e.path += g.name; for (auto &f : g.p.files) if (f.path == "d0") {} }
    else if (k < 5) { e.op = "replace"; e.path = r.pick(alive); e.arg = r.pct(50) ? g.text() : reviseText(g, g.p.files[0].data); }
    else if (k < 8) { e.op = "delete"; size_t j = r.below(alive.size()); e.path = alive[j]; if (r.pct(70)) alive.erase(alive.begin() + j); }
    else if (k < 10) { e.op = "rename"; size_t j = r.below(alive.size()); e.path = alive[j]; str base = e.path.substr(e.path.rfind('/') + 1); e.arg = (r.pct(50) ? str("") : "d1/") + strf("r%d_", fresh++) + base; alive.erase(alive.begin() + j); }
    else if (k < 11 && r.pct(40)) { // a directory moves, or a file takes its place, or the other way round
      str dn = strf("d%llu", (unsigned long long)r.below(3)); strs in; for (auto &x : alive) if (x.compare(0, dn.size() + 1, dn + "/") == 0) in.push_back(x);
      int how = r.below(3); if (in.empty()) how = 2;
      if (how == 0) { e.op = "rename"; e.path = dn; e.arg = strf("m%d", fresh++); }
      else if (how == 1) { Edit c = e; c.op = "rmdir"; c.path = dn; g.p.edits.push_back(c); e.op = "create"; e.path = dn; e.arg = g.text(); }
      else { e.path = r.pick(alive); Edit c = e; c.op = "delete"; g.p.edits.push_back(c); e.op = "mkdir"; in = {e.path}; }
      for (auto &x : in) alive.erase(std::remove(alive.begin(), alive.end(), x), alive.end());
    }
    else if (k < 11) { e.op = "rmdir"; e.path = strf("d%llu", (unsigned long long)r.below(3)); strs q; for (auto &x : alive) if (x.compare(0, e.path.size() + 1, e.path + "/")) q.push_back(x); alive = q; }
    else { e.op = "symlink"; e.path = r.pick(alive); e.arg = r.pick(g.sources); if (r.pct(70)) for (char c : e.path) if (c == '/') e.arg = "../" + e.arg; }
    g.p.edits.push_back(e);
  }
  // many a change comes right between two of the calls that concern what it changes
  if (r.pct(60)) for (auto &e : g.p.edits) if (r.pct(60)) {
    std::vector<long> k; for (size_t i = 0; i < t.ev.size(); i++) { const str &q = t.ev[i].path; if (q.size() >= e.path.size() && q.compare(q.size() - e.path.size(), e.path.size(), e.path) == 0) k.push_back(i); }
    if (k.size()) { long s = r.pick(k) + r.below(2); for (auto &o : g.p.edits) if (&o != &e && o.path == e.path && o.step == e.step) o.step = s; e.step = s; }
  }
  return g.p;
}
static Violation checkC13(const Plan &p, Director &d, Result &r) {
  r = d.run(p);
  Violation v = endings(p, d, r, false, true, true); if (v.is || r.crashed || r.hang) return v;
  const Proc &q = p.procs[0]; str flag = q.argv[0]; bool dir = q.argv.size() < 2 || q.argv[1] == "."; str pre = dir ? "./" : "";
  // every text that stood at a path during the run
  std::map<str, std::vector<str>> vers; std::set<str> touched, gone; std::map<str, str> now;
  for (auto &f : p.files) if (f.type == 'f') { now[f.path] = f.data; vers[f.path].push_back(f.data); }
  std::vector<Edit> es = p.edits; std::stable_sort(es.begin(), es.end(), [](const Edit &a, const Edit &b) { return a.step < b.step; });
  for (auto &e : es) {
    touched.insert(e.path);
    if (e.op == "replace" || e.op == "create") { now[e.path] = e.arg; vers[e.path].push_back(e.arg); }
    else if (e.op == "delete") { now.erase(e.path); gone.insert(e.path); }
    else if (e.op == "rename" && !vers.count(e.path)) { // a directory
      str d0 = e.path + "/"; gone.insert(e.path); std::vector<std::pair<str, str>> mv; for (auto &x : vers) if (x.first.compare(0, d0.size(), d0) == 0) mv.push_back({x.first, e.arg + "/" + x.first.substr(d0.size())});
      for (auto &m : mv) { gone.insert(m.first); touched.insert(m.first); touched.insert(m.second); auto from = vers[m.first]; auto &to = vers[m.second]; to.insert(to.end(), from.begin(), from.end()); now.erase(m.first); }
      for (auto &o : es) for (auto &x : {o.path, o.arg}) if (x.compare(0, d0.size(), d0) == 0) touched.insert(x);
    }
    else if (e.op == "mkdir") ;
    else if (e.op == "rename") { gone.insert(e.path); touched.insert(e.arg); for (auto &x : vers[e.path]) vers[e.arg].push_back(x); if (now.count(e.path)) { now[e.arg] = now[e.path]; now.erase(e.path); } }
    else if (e.op == "rmdir") { for (auto &f : p.files) if (f.path.compare(0, e.path.size() + 1, e.path + "/") == 0) touched.insert(f.path); for (auto &o : es) { if (o.path.compare(0, e.path.size() + 1, e.path + "/") == 0) touched.insert(o.path); if (o.arg.compare(0, e.path.size() + 1, e.path + "/") == 0) touched.insert(o.arg); } }
    else if (e.op == "symlink") gone.insert(e.path);
  }
  // a link shows whatever stood at its target, then or later
  for (int i = 0; i < 3; i++) for (auto &e : es) if (e.op == "symlink") { std::set<str> have(vers[e.path].begin(), vers[e.path].end()); strs at = split(e.path, '/'); at.pop_back(); for (auto &w : split(e.arg, '/')) { if (w != "..") at.push_back(w); else if (at.size()) at.pop_back(); }
    str target; for (auto &w : at) target += (target.size() ? "/" : "") + w; for (auto &x : std::vector<str>(vers[target])) if (have.insert(x).second) vers[e.path].push_back(x); }
  const Obs *ob = r.find(0, -2, "stdout"); str out = ob ? ob->text : ""; str body = cliBody(flag, out);
  strs files; if (dir) { for (auto &f : p.files) if (f.type == 'f') files.push_back(f.path); } else files = strs(q.argv.begin() + 1, q.argv.end());
  // answers the analysis of each version gives, with the language found in it or, if it could not be read, from the name
  auto answers = [&](const str &path, const str &kind, const strs &named = {}) {
    std::set<str> a; Plan n = p; n.edits.clear(); n.files.clear(); FileSpec f; f.type = 'd'; f.path = path; n.files = {f}; Obj x; x.path = pre + path; str byName = askObj(n, d, x, "lang");
    if (kind == "lang") a.insert(byName);
    for (auto &t : vers[path]) {
      f.type = 'f'; f.data = t; n.files = {f}; a.insert(askObj(n, d, x, kind));
      if (kind != "lang" && byName != "(none)" && t.find('\0') == str::npos) { Obj y = x; y.hasContents = true; y.contents = t; y.lang = byName; a.insert(askObj(n, d, y, kind)); }
      // (a file that is empty for a while is as one that is not there for a while: the detection goes on with what it finds then)
      if ((gone.count(path) || std::count(vers[path].begin(), vers[path].end(), str())) && kind == "loc" && t.find('\0') == str::npos) for (auto &l : named) { Obj y = x; y.hasContents = true; y.contents = t; y.lang = l; a.insert(askObj(n, d, y, kind)); }
    }
    return a;
  };
  str kind = flag == "-d" ? "lang" : flag == "-l" ? "lic" : "loc";
  for (auto &f : files) if (!touched.count(f)) { Obj x; x.path = pre + f; if (isAbnormal(askObj(p, d, x, kind))) { bump("plans-set-aside"); return Violation(); } }
  if (flag == "-s") {
    Table total, got; long fc; got = summaryTable(out, &total, &fc);
    std::set<str> sums; Table base; for (auto &f : files) if (!touched.count(f)) { Obj x; x.path = pre + f; for (auto &e : locTable(askObj(p, d, x, "loc"))) { auto &w = base[e.first]; w.resize(4); for (int k = 0; k < 4; k++) w[k] += e.second[k]; } }
    auto key = [](const Table &t) { str s; for (auto &x : t) { s += x.first; for (long v : x.second) s += strf(" %ld", v); s += ";"; } return s; };
    std::map<str, Table> states; states[key(base)] = base; strs named; for (auto &x : got) named.push_back(x.first);
    for (auto &tpath : touched) {
      if (!dir && std::find(files.begin(), files.end(), tpath) == files.end()) continue;
      std::map<str, Table> next = states;
      for (auto &a : answers(tpath, "loc", named)) { if (isAbnormal(a)) { bump("plans-set-aside"); return Violation(); } for (auto &s : states) { Table t = s.second; for (auto &e : locTable(a)) { auto &w = t[e.first]; w.resize(4); for (int k = 0; k < 4; k++) w[k] += e.second[k]; } next[key(t)] = t; } }
      states = next; if (states.size() > 20000) { bump("plans-set-aside"); return Violation(); }
    }
    bump("reports-compared");
    if (!states.count(key(got))) return vio("report", "summary is not a sum over versions that existed: " + clip(out, 1500));
    return Violation();
  }
  // other modes: expected lines of untouched files exactly once; the rest belongs to touched ones
  auto got = bag(linesOf(body));
  for (auto &f : files) if (!touched.count(f)) {
    str one = askCli(p, d, {flag, pre + f}); if (isAbnormal(one)) { bump("plans-set-aside"); return Violation(); }
    if (flag == "-l") { // names can repeat; take away what this file gives
      for (auto &l : linesOf(one)) { if (got[l] < 1) return vio("report", "untouched " + f + " is not reported: " + l); got[l]--; } continue; }
    for (auto &l : linesOf(cliBody(flag, one))) { if (got[l] != 1) return vio("report", strf("untouched %s is reported %ld times: %s", f.c_str(), got[l], l.c_str())); got[l] = 0; }
  }
  std::map<str, strs> rest; for (auto &e : got) for (long i = 0; i < e.second; i++) {
    str l = e.first; if (l.compare(0, 14, "Bad argument: ") == 0) { if (!touched.count(l.substr(14))) return vio("report", "untouched argument refused: " + l); continue; }
    str owner; for (auto &t : touched) { str n = flag == "-l" ? t.substr(t.rfind('/') + 1) : pre + t; if (l.size() > n.size() && l.compare(l.size() - n.size(), n.size(), n) == 0 && (l[l.size() - n.size() - 1] == ' ' || l[l.size() - n.size() - 1] == '\t')) owner = t; }
    if (owner.empty()) return vio("report", "a line that belongs to no file: " + clip(l)); rest[owner].push_back(l);
  }
  bump("reports-compared");
  for (auto &e : rest) {
    std::sort(e.second.begin(), e.second.end()); bool ok = false; str firstWant;
    str nm = flag == "-l" ? e.first.substr(e.first.rfind('/') + 1) : pre + e.first; strs named; for (auto &l : e.second) named.push_back(l.substr(0, l.find(' ')));
    if (!vers.count(e.first) || vers[e.first].empty()) return vio("report", "a line for something that never was a file: " + clip(e.second[0]));
    if (flag == "-d" && gone.count(e.first)) continue; // it vanished and came back: its language may come from a step of the detection after that
    for (auto &a : answers(e.first, kind, named)) {
      if (isAbnormal(a)) { bump("plans-set-aside"); return Violation(); }
      strs want;
      if (flag == "-d") want.push_back((a == "(none)" ? str("(null)") : a) + "\t" + nm);
      else if (flag == "-i") for (auto &l : linesOf(a)) { strs w = split(l, ' '); long c = atol(w[1].c_str()), m = atol(w[2].c_str()), b = atol(w[3].c_str()); str pc = c + m > 0 ? strf(" %9.1f%%", (float)m / (m + c) * 100) : str("           "); want.push_back(strf("%-16s %10ld %10ld", w[0].c_str(), c, m) + pc + strf(" %10ld %10ld  ", b, c + m + b) + nm); }
      else { strs w; for (auto &x : split(a, ' ')) if (x.size()) w.push_back(x); for (size_t i = 0; i < w.size(); i++) want.push_back(w[i] + (i + 1 < w.size() ? "," : "") + " " + nm); }
      std::sort(want.begin(), want.end()); if (want == e.second) ok = true; if (firstWant.empty() && want.size()) firstWant = want[0];
    }
    if (flag == "-l" && !ok) { // several touched files can share a base name
      int same = 0; for (auto &t : touched) if (t.substr(t.rfind('/') + 1) == nm) same++; if (same > 1) ok = true; }
    if (!ok) return vio("report", "touched " + e.first + ": \"" + clip(e.second[0]) + strf("\" (%zu lines) is what no version gives (for example \"", e.second.size()) + clip(firstWant) + "\")");
  }
  return Violation();
}
// ---------------------------------------------------------------- C14
static Plan genC14(u64 seed, Director &d) {
  Gen g("C14", seed); Rng &r = g.r; g.ioKnobs(); g.p.knob["order"] = 0;
  int n = 1 + r.below(5); for (int i = 0; i < n; i++) g.addSource(r.pct(50) ? "" : "d", r.pct(10) ? 6000 : 0);
  static const char *fl[] = {"-a", "-d", "-i", "-l", "-re", "-s", "-h", "--summary", "--individual", "--annotate", "--detect", "--license", "--help"};
  strs a; if (r.pct(85)) a.push_back(fl[r.below(13)]); if (r.pct(75)) a.insert(a.end(), g.sources.begin(), g.sources.end()); if (r.pct(15)) a.push_back("missing.c");
  if (a.size() && a[0] == "missing.c") a.erase(a.begin());
  g.cli(a);
  if (r.pct(85)) {
    Trace t = d.dry(g.p); const Obs *o = t.r.find(0, -2, "stdout"); long len = o ? o->text.size() : 0;
    long at = r.below(len + 1); if (r.pct(25) && len) at = len - 1 - r.below(std::min(len, 3L)); if (r.pct(10)) at = 0; if (r.pct(15) && len > 4096) at = 4096 * r.below(len / 4096 + 1); if (r.pct(10)) at = len;
    g.p.faults.push_back({0, "stdout", "*", r.pct(60) ? -1 : 0, (const char *[]){"ENOSPC", "EPIPE", "EIO", "EDQUOT"}[r.below(4)], at});
  }
  return g.p;
}
static Violation checkC14(const Plan &p, Director &d, Result &r) {
  r = d.run(p);
  Violation v = endings(p, d, r, true); if (v.is || r.crashed || r.hang) return v;
  bool failed = false; for (auto &o : r.obs) if (o.kind == "!outfail") failed = true;
  bool bad = false; for (auto &a : p.procs[0].argv) if (a == "missing.c") bad = true;
  Plan q = p; q.faults.clear(); q.knob.clear(); str want = d.freshQuery(q); if (isAbnormal(want)) { bump("plans-set-aside"); return Violation(); }
  const Obs *o = r.find(0, -2, "stdout"); str got = o ? o->text : "";
  if (failed) { bump("incomplete-reports"); if (r.code[0] == 0 && got != want) return vio("status", strf("%zu of %zu bytes written, exit status 0", got.size(), want.size())); return Violation(); }
  bump("complete-reports");
  if (r.code[0] != 0 && !bad) return vio("status", strf("complete report, exit status %d", r.code[0]));
  if (got != want) return vio("report", strf("exit status %d with %zu bytes, the complete report has %zu", r.code[0], got.size(), want.size()));
  return Violation();
}
void profiles2() {
  profiles.push_back({"C03", genC03, checkC03, sampleOf});
  profiles.push_back({"C04", genC04, checkC04, sampleOf});
  profiles.push_back({"C05", genC05, checkC05, sampleOf});
  profiles.push_back({"C08", genC08, checkC08, sampleOf});
  profiles.push_back({"C09", genC09, checkC09, sampleOf});
  profiles.push_back({"C10", genC10, checkC10, sampleOf});
  profiles.push_back({"C13", genC13, checkC13, sampleOf});
  profiles.push_back({"C14", genC14, checkC14, sampleOf});
}
