// prof1.cc: profiles C01 (no interference), C02 (accessors), C06 (conservation), C07 (deltas), C11 (resources), C12 (memory)
#include "gen.h"
#include "universe.h"

static const char *KINDS[] = {"contents", "size", "lang", "parse", "pll", "loc", "lic", "path", "annot", "ents"};
static str anyKind(Rng &r) { static const int w[] = {0, 1, 2, 3, 4, 4, 5, 5, 5, 6, 6, 7, 8, 8, 9, 9}; return KINDS[w[r.below(16)]]; }
static str sampleScript(const Plan &p, const Result &r) {
  str s; for (auto &q : p.procs) { s += q.cli ? "[ohcount" : "["; for (auto &a : q.argv) s += " " + a; int n = 0; for (auto &o : q.ops) if (n++ < 12) { s += o.name; for (size_t i = 0; i < o.a.size() && i < 3; i++) s += " " + clip(o.a[i], 24); s += "; "; } s += strf("%zu ops] ", q.ops.size()); }
  for (auto &k : p.knob) if (k.second) s += strf("%s=%ld ", k.first.c_str(), k.second);
  for (auto &f : p.faults) s += strf("fault %s %s #%ld %s; ", f.site.c_str(), f.path.c_str(), f.nth, f.act.c_str());
  for (auto &e : p.edits) s += strf("edit@%ld %s %s; ", e.step, e.op.c_str(), e.path.c_str());
  for (auto &k : p.kills) s += strf("kill %d@%ld; ", k.proc, k.step);
  return s + strf("-> %llu steps, %zu observations", (unsigned long long)r.steps, r.obs.size());
}

// a random sequence of library operations over the sources of g
static void randomOps(Gen &g, Proc &q, int n, bool lists, bool diffs) {
  Rng &r = g.r; strs slots; int ns = 0, nl = 0; strs lists_; int nd = 0; strs dl;
  auto newObj = [&]() { str s = "s" + std::to_string(ns++); strs a = {s, r.pick(g.sources)}; if (r.pct(8)) a[1] = "@/tree/" + a[1]; else if (r.pct(7)) a = {s, "virtual/" + r.pick(g.sources), a[1]}; op(q, "new", a); slots.push_back(s);
    if (r.pct(6)) op(q, "setdisk", {s, r.pick(g.sources)});
    if (r.pct(10)) { str keep = g.name; op(q, "setcontents", {s, g.text()}); g.name = keep; }
    if (r.pct(4)) op(q, "setlang", {s, corpus[0].name.size() ? (const char *[]){"ruby", "c", "html", "php", "python", "nosuch"}[r.below(6)] : "c"});
    if (r.pct(12)) op(q, "setnames", {s, "main.c", "x.frm", r.pct(50) ? "foo.m" : "a.cpp", "b.h"}); };
  newObj();
  for (int i = 0; i < n; i++) {
    int k = r.below(100);
    if (k < 22) newObj();
    else if (k < 70) { if (slots.empty()) newObj(); op(q, "q", {r.pick(slots), anyKind(r)}); }
    else if (k < 80) { if (slots.size()) { size_t j = r.below(slots.size()); op(q, "free", {slots[j]}); slots.erase(slots.begin() + j); } }
    else if (k < 88 && diffs) { while (slots.size() < 2) newObj(); op(q, "diff", {r.pick(slots), r.pick(slots)}); }
    else if (k < 93 && lists) {
      str l = "l" + std::to_string(nl++); op(q, "lnew", {l}); int m = 1 + r.below(4); for (int j = 0; j < m; j++) op(q, "ladd", {l, r.pick(g.sources)});
      if (r.pct(50)) op(q, "lan", {l}); op(q, "lq", {l, r.pct(70) ? anyKind(r) : str("lic")}); if (r.pct(60)) op(q, "lan", {l}); if (r.pct(80)) op(q, "lfree", {l});
    } else if (diffs) {
      while (slots.size() < 2) newObj();
      str dn = "d" + std::to_string(nd++); op(q, "dnew", {dn}); int m = 1 + r.below(3); for (int j = 0; j < m; j++) op(q, "dadd", {dn, r.pick(slots), r.pick(slots)});
      op(q, r.pct(50) ? "drec" : "dcompact", {dn}); op(q, "dfree", {dn});
    }
  }
}
// ---------------------------------------------------------------- C01
static Plan genC01(u64 seed, Director &) {
  Gen g("C01", seed); Rng &r = g.r; g.memoryKnobs(); g.ioKnobs();
  if (r.pct(33)) { // sequences of very small files of related languages, each asked straight after another
    strs langs; g.tinyFamily(langs);
    if (r.pct(25)) { static const char *fl[] = {"-a", "-d", "-i", "-l", "-re", "-s"}; strs a = {fl[r.below(6)]}; int m = r.pct(8) ? 40 + r.below(160) : 2 + r.below(10); for (int i = 0; i < m; i++) a.push_back(r.pick(g.sources)); g.cli(a); return g.p; }
    Proc &q = g.script(); int m = r.pct(4) ? 100 + r.below(300) : 6 + r.below(24), s = 0;
    for (int i = 0; i < m; i++) {
      str n = "s" + std::to_string(s++); op(q, "new", {n, r.pick(g.sources)});
      if (r.pct(15) && langs.size()) op(q, "setlang", {n, r.pick(langs)});
      static const char *ks[] = {"pll", "loc", "parse", "lang", "ents", "annot", "lic"}; int k = 1 + r.below(2);
      for (int j = 0; j < k; j++) op(q, "q", {n, ks[r.pct(60) ? r.below(2) : r.below(7)]});
      if (r.pct(70)) op(q, "free", {n}); else if (s > 1 && r.pct(40)) op(q, "diff", {n, n});
    }
    return g.p;
  }
  int n = 1 + r.below(7); bool big = r.pct(4);
  for (int i = 0; i < n; i++) g.addSource(r.pct(50) ? "" : strf("d%llu", (unsigned long long)r.below(3)), big && i == 0 ? 110000 : 0);
  if (r.pct(15)) g.sources.push_back("missing.c");
  if (r.pct(10)) { g.add('d', "adir"); g.sources.push_back("adir"); }
  if (r.pct(35)) {
    static const char *fl[] = {"-a", "-d", "-i", "-l", "-re", "-s"};
    strs a = {fl[r.below(6)]}; int m = r.pct(5) ? 20 + r.below(50) : 1 + r.below(6); for (int i = 0; i < m; i++) { a.push_back(r.pick(g.sources)); if (a.back() == "adir") a.pop_back(); }
    if (a.size() == 1) a.push_back(g.sources[0]);
    g.cli(a);
  } else { Proc &q = g.script(); randomOps(g, q, r.pct(2) ? 80 + r.below(100) : 4 + r.below(28), true, true); }
  return g.p;
}
// a report over several file arguments is made of the reports of each file alone
static Violation cmpCli(const Plan &p, Director &d, const Result &r, int proc) {
  const strs &av = p.procs[proc].argv; str flag = av[0];
  const Obs *o = r.find(proc, -2, "stdout"); str got = o ? o->text : "";
  if (flag != "-s") {
    str want, bad; int n = 0;
    for (size_t i = 1; i < av.size(); i++) {
      str one = askCli(p, d, {flag, av[i]}); if (isAbnormal(one)) { bump("plans-set-aside"); return Violation(); }
      strs l = linesOf(one);
      if (l.size() && l[0].compare(0, 14, "Bad argument: ") == 0) { bad += l[0] + "\n"; if (one.size() >= l[0].size() + 1) one = one.substr(l[0].size() + 1); } else n++;
      want += cliBody(flag, one);
    }
    if (flag == "-i") {
      size_t h = got.find("Examining "); str head = bad + strf("Examining %d file(s)\n", n);
      if (h == str::npos || got.compare(0, head.size(), head)) return vio("answer", "report starts with \"" + clip(got, 80) + "\" instead of \"" + head + "\"");
      got = cliBody(flag, got);
    } else want = bad + want;
    bump("answers-compared");
    if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; size_t b = i > 60 ? i - 60 : 0; return vio("answer", strf("ohcount %s over %zu files differs from the reports of fresh processes at byte %zu: \"%s\" instead of \"%s\"", flag.c_str(), av.size() - 1, i, clip(got.substr(b), 160).c_str(), clip(want.substr(b), 160).c_str())); }
    return Violation();
  }
  Table t; int n = 0;
  for (size_t i = 1; i < av.size(); i++) {
    str one = askCli(p, d, {flag, av[i]}); if (one.compare(0, 13, "Bad argument:") == 0) continue; n++;
    Obj x; x.path = av[i]; str a = askObj(p, d, x, "loc"); if (isAbnormal(a)) { bump("plans-set-aside"); return Violation(); }
    for (auto &e : locTable(a)) { auto &v = t[e.first]; v.resize(4); for (int k = 0; k < 4; k++) v[k] += e.second[k]; }
  }
  Table g; bool in = false; int dashes = 0; long cnt = -1;
  for (auto &l : linesOf(got)) {
    if (l.compare(0, 10, "Examining ") == 0) cnt = atol(l.c_str() + 10);
    if (l.compare(0, 10, "----------") == 0) { dashes++; in = dashes == 1; continue; }
    if (!in) continue;
    strs w; for (auto &x : split(l, ' ')) if (x.size()) w.push_back(x);
    if (w.size() == 7) g[w[0]] = {atol(w[2].c_str()), atol(w[3].c_str()), atol(w[5].c_str()), atol(w[1].c_str())};
  }
  bump("answers-compared");
  if (cnt != n) return vio("answer", strf("summary examines %ld files instead of %d", cnt, n));
  if (g != t) return vio("answer", "summary differs from the sum of fresh processes: \"" + clip(got, 1500) + "\"");
  return Violation();
}
static Violation checkC01(const Plan &p, Director &d, Result &r) {
  r = d.run(p);
  Violation v = endings(p, d, r, false); if (v.is) return v;
  if (r.crashed || r.hang) return v;
  for (size_t i = 0; i < p.procs.size(); i++) {
    if (p.procs[i].cli) { v = cmpCli(p, d, r, i); if (v.is) return v; }
    else { str m = cmpScript(p, i, r, d); if (m.size()) return vio("answer", m); }
  }
  return Violation();
}
// ---------------------------------------------------------------- C02
static Plan genC02(u64 seed, Director &) {
  Gen g("C02", seed); Rng &r = g.r; g.memoryKnobs(); g.ioKnobs();
  bool big = r.pct(2);
  str a = g.addSource("", big ? 105000 : 0), b = g.addSource("x");
  Proc &q = g.script(); int kind = r.below(5); str nm = r.pct(70) ? a : b;
  auto make = [&](const str &s, int kind, const str &file) {
    if (kind == 0) op(q, "new", {s, file});
    else if (kind == 1) op(q, "new", {s, "virtual/" + file, file});                                   // text lives elsewhere on disk
    else if (kind == 2) { op(q, "new", {s, file}); op(q, "setcontents", {s, g.text()}); }             // supplied, a different file exists
    else if (kind == 3) { op(q, "new", {s, "nowhere/" + file}); op(q, "setcontents", {s, g.text()}); } // supplied, no file exists
    else { op(q, "new", {s, "virtual/" + file, file}); op(q, "setcontents", {s, g.text()}); }         // supplied and an alternative location
  };
  make("a", kind, nm); make("b", r.below(5), r.pct(50) ? b : a);
  if (r.pct(20)) op(q, "setlang", {"a", (const char *[]){"ruby", "c", "html", "python"}[r.below(4)]});
  if (r.pct(25)) op(q, "setnames", {"a", "foo.m", "x.frm", "a.h"});
  int n = 3 + r.below(16);
  for (int i = 0; i < n; i++) {
    int k = r.below(100);
    if (k < 82) op(q, "q", {"a", anyKind(r)});
    else if (k < 90) op(q, "q", {"b", anyKind(r)});
    else op(q, "diff", {r.pct(50) ? "a" : "b", r.pct(70) ? "b" : "a"});
  }
  // a sweep in random order, so that each accessor is asked after each other over the seeds
  strs all; for (auto k : KINDS) all.push_back(k); r.shuffle(all); for (auto &k : all) op(q, "q", {"a", k});
  return g.p;
}
static Violation checkScript(const Plan &p, Director &d, Result &r) {
  r = d.run(p);
  Violation v = endings(p, d, r, false); if (v.is || r.crashed || r.hang) return v;
  for (size_t i = 0; i < p.procs.size(); i++) { str m = cmpScript(p, i, r, d); if (m.size()) return vio("answer", m); }
  return Violation();
}
// ---------------------------------------------------------------- C06
static Plan genC06(u64 seed, Director &) {
  Gen g("C06", seed); Rng &r = g.r; g.pristine = true; g.memoryKnobs(); g.ioKnobs();
  int n = 1 + r.below(14); if (r.pct(3)) n = 60 + r.below(60);
  for (int i = 0; i < n; i++) g.addSource(r.pct(30) ? "" : strf("d%llu", (unsigned long long)r.below(4)));
  if (r.pct(35)) { // files that hold nothing but blank lines, or almost nothing
    int k = r.pct(5) ? 30 + r.below(120) : 1 + r.below(4); for (int i = 0; i < k; i++) { str tx = (const char *[]){"\n", "\n\n\n", "\n \n", "", "\n\n\n\n\n\n", "\t\n"}[r.below(6)]; str nm = strf("e%d/", i) + UNI_NAMES[r.below(UNI_NAMES.size())]; g.add('f', nm, tx); g.sources.push_back(nm); } }
  if (r.pct(20)) { str t; long k = r.pct(12) ? 70000 + r.below(120000) : 2000 + r.below(30000); int tilt = r.below(6); for (long i = 0; i < k; i++) { int w = r.below(6); t += (const char *[]){"x;\n", "// c\n", "\n"}[w < 3 ? w : tilt % 3]; } g.add('f', "huge.c", t); g.sources.push_back("huge.c"); } // wide numbers in the report
  bool wide = r.below(1500) == 0; if (wide) { str t = "x = \"" + str(8600000 + r.below(900000), 'x') + "\";\n"; g.add('f', "wide.c", t); g.sources.push_back("wide.c"); } // a line that is longer than the stack
  // one process per report mode; then the library with a random merge tree
  strs args; bool dir = r.pct(40) && !wide;
  if (dir) { if (r.pct(50)) args.push_back("."); }
  else { args = g.sources; r.shuffle(args); if (r.pct(20)) args.push_back(args[0]); }
  auto flags = [&](const str &f) { strs a = {f}; a.insert(a.end(), args.begin(), args.end()); return a; };
  g.cli(flags("-s")); g.cli(flags("-i"));
  if (!dir) { r.shuffle(args); g.cli(flags("-a")); }
  Proc &q = g.script(); strs src = g.sources; r.shuffle(src); int m = 0, j = 0; strs lists;
  op(q, "lnew", {"L"}); for (auto &s : src) op(q, "ladd", {"L", s}); if (r.pct(60)) op(q, "lan", {"L"}); op(q, "lq", {"L", r.pct(70) ? "loc" : "annot"}); op(q, "lan", {"L"}); op(q, "lfree", {"L"});
  for (auto &s : src) { str o = "o" + std::to_string(j++); op(q, "new", {o, s}); if (r.pct(20)) op(q, "q", {o, anyKind(r)}); if (lists.empty() || r.pct(35)) { lists.push_back("m" + std::to_string(m++)); op(q, "mnew", {lists.back()}); } op(q, "madd", {r.pick(lists), o}); }
  while (lists.size() > 1) { size_t x = r.below(lists.size()), y = r.below(lists.size() - 1); if (y >= x) y++; op(q, "mmerge", {lists[x], lists[y]}); if (r.pct(30)) op(q, "mrec", {lists[y]}); op(q, "mfree", {lists[y]}); lists.erase(lists.begin() + y); }
  if (r.pct(60)) for (int i = 0; i < j; i++) op(q, "free", {"o" + std::to_string(i)});
  op(q, "mrec", {lists[0]}); op(q, "mcompact", {lists[0]}); op(q, "mrec", {lists[0]});
  return g.p;
}
static Table summaryOf(const str &out, Table *total, long *files) {
  Table g; int dashes = 0;
  for (auto &l : linesOf(out)) {
    if (l.compare(0, 10, "Examining ") == 0) *files = atol(l.c_str() + 10);
    if (l.compare(0, 10, "----------") == 0) { dashes++; continue; }
    if (!dashes) continue;
    strs w; for (auto &x : split(l, ' ')) if (x.size()) w.push_back(x);
    if (w.size() != 7) { if (w.size()) g["(malformed line) " + l] = {0, 0, 0, 0}; continue; }
    std::vector<long> v = {atol(w[2].c_str()), atol(w[3].c_str()), atol(w[5].c_str()), atol(w[1].c_str()), atol(w[6].c_str())};
    double pc = atof(w[4].c_str()), want = v[0] + v[1] ? 100.0 * v[1] / (v[0] + v[1]) : 0;
    if (pc - want > 0.06 || want - pc > 0.06) g["(wrong percentage) " + l] = {0, 0, 0, 0, 0};
    if (v[4] != v[0] + v[1] + v[2]) g["(wrong total) " + l] = {0, 0, 0, 0, 0};
    v.resize(4); (dashes == 1 ? g : *total)[w[0]] = v;
  }
  return g;
}
static Table individualOf(const str &out, long *files) {
  Table g; bool in = false;
  for (auto &l : linesOf(out)) {
    if (l.compare(0, 10, "Examining ") == 0) *files = atol(l.c_str() + 10);
    if (l.compare(0, 10, "----------") == 0) { in = true; continue; }
    if (!in) continue;
    strs w; for (auto &x : split(l, ' ')) if (x.size()) w.push_back(x);
    if (w.size() < 5) { g["(malformed line) " + l] = {0, 0, 0, 0}; continue; }
    size_t k = w[3].back() == '%' ? 1 : 0; // no percentage where there is neither code nor comment
    long c = atol(w[1].c_str()), m = atol(w[2].c_str()), b = atol(w[3 + k].c_str()), tot = atol(w[4 + k].c_str());
    if (tot != c + m + b) g["(wrong total) " + l] = {0, 0, 0, 0};
    auto &v = g[w[0]]; v.resize(4); v[0] += c; v[1] += m; v[2] += b; v[3]++;
  }
  return g;
}
static str tab(const Table &t) { str s; for (auto &x : t) { s += x.first; for (long v : x.second) s += strf(" %ld", v); s += "; "; } return clip(s, 500); }
static Violation checkC06(const Plan &p, Director &d, Result &r) {
  r = d.run(p);
  Violation v = endings(p, d, r, false); if (v.is || r.crashed || r.hang) return v;
  Table labels, sum, ind, total; bool haveS = false, haveI = false; long fs = -1, fi = -1;
  for (size_t i = 0; i < p.procs.size(); i++) {
    const Obs *o = r.find(i, -2, "stdout"); str out = o ? o->text : "";
    if (!p.procs[i].cli) { str m = cmpScript(p, i, r, d); if (m.size()) return vio("conservation", m); continue; }
    str fl = p.procs[i].argv[0];
    if (fl == "-s") { sum = summaryOf(out, &total, &fs); haveS = true; }
    if (fl == "-i") { ind = individualOf(out, &fi); haveI = true; }
  }
  // labels: what annotation says of each file alone, over the files that were asked for
  strs files; const Proc *ref = nullptr; for (auto &q : p.procs) if (q.cli && q.argv[0] != "-a") ref = &q;
  if (!ref) return Violation();
  bool dir = ref->argv.size() < 2 || ref->argv[1] == ".";
  if (dir) { for (auto &f : p.files) if (f.type == 'f') files.push_back(f.path); } else files = strs(ref->argv.begin() + 1, ref->argv.end());
  long lines = 0; Violation differ; // a file whose own two answers differ is reported after everything else
  for (auto &f : files) {
    Obj x; x.path = f; str a = askObj(p, d, x, "annot"), l = askObj(p, d, x, "loc"); if (isAbnormal(a) || isAbnormal(l)) { bump("plans-set-aside"); return Violation(); }
    Table one; strs w = split(a, ' ');
    for (size_t i = 2; i < w.size(); i++) { size_t s = w[i].rfind('/'), c = w[i].rfind(':'); str lang = w[i].substr(0, s), ent = w[i].substr(s + 1, c - s - 1); long n = atol(w[i].c_str() + c + 1); auto &e = one[lang]; e.resize(4); e[3] = 1; if (ent == "lcode") e[0] += n; else if (ent == "lcomment") e[1] += n; else if (ent == "lblank") e[2] += n; }
    Table counted = locTable(l);
    if (one != counted && !differ.is) differ = vio("conservation", "file " + f + ": annotation labels {" + tab(one) + "}, the file's line counts are {" + tab(counted) + "}");
    for (auto &e : counted) { auto &t = labels[e.first]; t.resize(4); for (int k = 0; k < 4; k++) { t[k] += e.second[k]; if (k < 3) lines += e.second[k]; } }
  }
  bump("labelled-lines", lines); bump("answers-compared", haveS + haveI);
  if (haveS) {
    if (sum != labels) return vio("conservation", "summary {" + tab(sum) + "}, the files' annotations add up to {" + tab(labels) + "}");
    Table tw; auto &t = tw["Total"]; t.resize(4); for (auto &e : labels) for (int k = 0; k < 4; k++) t[k] += e.second[k];
    if (total != tw) return vio("conservation", "grand total {" + tab(total) + "} instead of {" + tab(tw) + "}");
    if (fs != (long)files.size()) return vio("conservation", strf("summary examines %ld files of %zu", fs, files.size()));
  }
  if (haveI) {
    if (ind != labels) return vio("conservation", "individual report adds up to {" + tab(ind) + "}, annotations to {" + tab(labels) + "}");
    if (fi != (long)files.size()) return vio("conservation", strf("individual report examines %ld files of %zu", fi, files.size()));
  }
  // annotation of the command line: as many labelled lines as counted, when every text ends its lines
  bool nl = !differ.is; for (auto &f : p.files) if (f.type == 'f' && (f.data.empty() || f.data.back() != '\n' || f.data.find('\r') != str::npos || f.data.find('\t') != str::npos)) nl = false;
  if (nl) for (size_t i = 0; i < p.procs.size(); i++) if (p.procs[i].cli && p.procs[i].argv[0] == "-a") {
    const Obs *o = r.find(i, -2, "stdout"); Table t;
    for (auto &l : linesOf(o ? o->text : "")) { strs w = split(l, '\t'); if (w.size() < 2) continue; int k = w[1] == "lcode" ? 0 : w[1] == "lcomment" ? 1 : w[1] == "lblank" ? 2 : -1; if (k >= 0) { auto &e = t[w[0]]; e.resize(4); e[k]++; } }
    Table lw = labels; for (auto &e : lw) e.second[3] = 0;
    for (auto &e : t) e.second[3] = 0;
    bump("answers-compared");
    if (t != lw) return vio("conservation", "annotation prints {" + tab(t) + "}, counts are {" + tab(lw) + "}");
  }
  return differ;
}
// ---------------------------------------------------------------- C07
static str revise(Gen &g, const str &s) {
  Rng &r = g.r; strs l = linesOf(s); int n = 1 + r.below(4);
  for (int i = 0; i < n; i++) switch (l.empty() ? 1 : r.below(10)) {
    case 8: { str &x = l[r.below(l.size())]; for (auto &c : x) if (r.pct(50)) c = islower(c) ? toupper(c) : tolower(c); break; }  // what a tool could be told to overlook
    case 9: { str &x = l[r.below(l.size())]; size_t a = x.find(' '); if (a == str::npos) x.insert(r.below(x.size() + 1), r.pct(70) ? " " : "\t"); else if (r.pct(50)) x.insert(a, " "); else x.erase(a, 1); break; }
    case 0: if (l.size()) { size_t a = r.below(l.size()), k = 1 + r.below(5); l.erase(l.begin() + a, l.begin() + std::min(l.size(), a + k)); } break;
    case 1: { size_t a = r.below(l.size() + 1); l.insert(l.begin() + a, r.pct(50) && l.size() ? l[r.below(l.size())] : strf("x%llu = %llu;", (unsigned long long)r.below(50), (unsigned long long)r.below(9))); break; }
    case 2: if (l.size()) l[r.below(l.size())] += (const char *[]){" ", "x", ";", "// z", " /* y */", "\xc3\xa4"}[r.below(6)]; break;
    case 3: if (l.size() > 1) std::swap(l[r.below(l.size())], l[r.below(l.size())]); break;
    case 4: if (l.size()) { size_t a = r.below(l.size()), k = 1 + r.below(6); strs b(l.begin() + a, l.begin() + std::min(l.size(), a + k)); l.insert(l.begin() + r.below(l.size() + 1), b.begin(), b.end()); } break;
    case 5: l.insert(l.begin() + r.below(l.size() + 1), ""); break;
    case 6: { str t; for (auto &x : l) t += x + "\n"; l = linesOf(g.mutate(t)); break; }
    case 7: for (auto &x : l) if (r.pct(10)) x = "// " + x; break;
  }
  str o; for (auto &x : l) o += x + "\n";
  if (r.pct(10) && o.size()) o.pop_back();
  return o;
}
static Plan genC07(u64 seed, Director &) {
  Gen g("C07", seed); Rng &r = g.r; g.memoryKnobs(); if (r.pct(40)) g.p.knob["chunk"] = 1 + r.below(1000000);
  int mode = r.below(10); int n = 2 + r.below(5); bool big = mode == 0;
  str base = g.text(big ? 105000 + r.below(20000) : 0), nm = g.name;
  if (big && r.pct(40)) { // one very long line and lines that look like the tool's output
    str t(9990 + r.below(20), 'a'); base += "\nint a" + t + ";\n> not added\n< not removed\n--- x\n"; for (int i = 0; i < 30; i++) base += "x" + str(9998 + r.below(6), (const char[]){'<', '>', 'b'}[r.below(3)]) + ">>\n"; }
  if (mode == 1) { base = ""; for (int i = 0; i < 200; i++) base += strf("v%llu%c\n", (unsigned long long)r.below(40), "\r "[r.below(2)]); }
  bool many = r.below(1000) < 8;
  if (many) { // as many lines as fit below the limit for a comparison in memory
    nm = (const char *[]){"a.c", "a.py", "a.rb", "a.lua"}[r.below(4)]; n = 2; base = ""; long k = 32000 + r.below(17500); static const char c[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"; for (long i = 0; i < k; i++) { base += c[r.below(62)]; base += '\n'; } }
  std::vector<str> v = {base};
  if (many) { // a few lines differ, towards both ends
    str t = base; int e = 1 + r.below(6); for (int i = 0; i < e; i++) { size_t a = 2 * (r.pct(50) ? r.below(50) : t.size() / 2 - 1 - r.below(50)); int w = r.below(3); if (w == 0) t.erase(a, 2); else if (w == 1) t.insert(a, "7\n"); else t[a] = t[a] == 'q' ? 'z' : 'q'; }
    if (t.size() > 99000) t.resize(99000 / 2 * 2); v.push_back(t); }
  for (int i = v.size(); i < n; i++) {
    if (big && r.pct(45)) { // of the same length, one letter or digit (of a few that are as good) has changed somewhere
      str t = v.back(); size_t at = 0; for (int k = 0; k < 60 && t.size(); k++) { at = r.below(t.size()); if (isalnum((unsigned char)t[at])) break; }
      if (t.size()) { static const char c[] = "abcxyzABZ0189"; t[at] = c[r.below(sizeof c - 1)]; } v.push_back(t); continue; }
    int k = r.below(10); v.push_back(k == 0 ? "" : k == 1 ? g.text() : k == 2 ? v[r.below(v.size())] : revise(g, v.back())); }
  bool supplied = r.pct(40);
  Proc &q = g.script(); str used = r.pct(90) ? nm : "z_" + nm;
  for (int i = 0; i < n; i++) {
    str s = "v" + std::to_string(i), path = "r" + std::to_string(i) + "/" + (r.pct(95) ? nm : used);
    g.add('f', path, v[i]); op(q, "new", {s, path}); if (supplied && r.pct(50)) op(q, "setcontents", {s, v[i]});
  }
  op(q, "dnew", {"D"}); op(q, "dnew", {"E"}); strs order;
  for (int i = 0; i + 1 < n; i++) { op(q, "dadd", {r.pct(50) ? "D" : "E", "v" + std::to_string(i), "v" + std::to_string(i + 1)}); if (r.pct(30)) op(q, "q", {"v" + std::to_string(i), "loc"}); }
  if (many) return g.p;
  op(q, "drec", {"E"}); op(q, "dmerge", {"D", "E"}); op(q, "drec", {"D"}); op(q, "dcompact", {"D"}); op(q, "drec", {"D"});
  op(q, "diff", {"v0", "v" + std::to_string(n - 1)}); op(q, "diff", {"v" + std::to_string(n - 1), "v0"});
  str s = "v" + std::to_string(r.below(n)); op(q, "diff", {s, s});
  return g.p;
}
struct Lines { std::map<str, std::map<str, long>> code, com; std::map<str, strs> seq[2]; std::map<str, std::vector<long>> cnt; bool exact = true; };
static Lines linesTable(const str &t) {
  Lines r;
  for (auto &l : linesOf(t)) {
    strs w = split(l, ' '); if (w.size() < 5) continue;
    r.cnt[w[0]] = {atol(w[1].c_str()), atol(w[2].c_str()), atol(w[3].c_str())};
    std::map<str, long> *m = nullptr; long n[2] = {0, 0};
    for (size_t i = 4; i < w.size(); i++) { if (w[i] == "c") m = &r.code[w[0]]; else if (w[i] == "m") m = &r.com[w[0]]; else if (m) { (*m)[w[i]]++; r.seq[m == &r.com[w[0]]][w[0]].push_back(w[i]); n[m == &r.com[w[0]]]++; } }
    if (n[0] != r.cnt[w[0]][0] || n[1] != r.cnt[w[0]][1]) r.exact = false; // the counted lines are not the lines of the collected text
  }
  return r;
}
// Length of a longest common subsequence; -1 if it is too long to tell, or if two different lines have the same sum.
static long common(const strs &a, const strs &b, long &ends) {
  ends = 0; std::map<str, str> sums;
  for (auto v : {&a, &b}) for (auto &x : *v) { str s = x.substr(x.find('.')); if (s == ".0") s = ".1"; auto &y = sums[s]; if (y.size() && y != x) return -1; y = x; }
  size_t p = 0, q = 0, n = a.size(), m = b.size(); while (p < n && p < m && a[p] == b[p]) p++; while (q < n - p && q < m - p && a[n - 1 - q] == b[m - 1 - q]) q++;
  ends = p + q; n -= ends; m -= ends; 
  if (n * m > 3000000) { // (long, but perhaps almost equal: follow the furthest reaching paths)
    const long most = 400; std::vector<long> V(2 * most + 3); long N = n, M = m;
    for (long D = 0; D <= most; D++) for (long k = -D; k <= D; k += 2) {
      long x = k == -D || (k != D && V[most + k] < V[most + k + 2]) ? V[most + k + 2] : V[most + k] + 1, y = x - k;
      while (x < N && y < M && a[p + x] == b[p + y]) x++, y++;
      V[most + k + 1] = x; if (x >= N && y >= M) return ends + (N + M - D) / 2;
    }
    return -1; }
  std::vector<int> L(m + 1); for (size_t i = 0; i < n; i++) { int diag = 0; for (size_t j = 1; j <= m; j++) { int up = L[j]; L[j] = a[p + i] == b[p + j - 1] ? diag + 1 : std::max(L[j], L[j - 1]); diag = up; } }
  return ends + L[m];
}
static size_t textSize(const Plan &p, const Obj &o) { if (o.hasContents) return o.contents.size(); for (auto &f : p.files) if (f.path == o.path) return f.data.size(); return 0; }
static Violation checkC07(const Plan &p, Director &d, Result &r) {
  r = d.run(p);
  Violation v = endings(p, d, r, false); if (v.is || r.crashed || r.hang) return v;
  str m = cmpScript(p, 0, r, d); if (m.size()) return vio("delta", m);
  std::map<str, Obj> S;
  for (size_t i = 0; i < p.procs[0].ops.size(); i++) {
    const Op &o = p.procs[0].ops[i];
    if (o.name == "new") { Obj x; x.path = o.a[1]; S[o.a[0]] = x; }
    if (o.name == "setcontents") { S[o.a[0]].hasContents = true; S[o.a[0]].contents = o.a[1]; }
    int k = o.name == "dadd"; if (o.name != "diff" && !k) continue;
    if (!S.count(o.a[k]) || !S.count(o.a[k + 1])) continue;
    const Obs *ob = r.find(0, i, o.name); if (!ob) continue;
    str ta = askObj(p, d, S[o.a[k]], "lines"), tb = askObj(p, d, S[o.a[k + 1]], "lines");
    if (isAbnormal(ta) || isAbnormal(tb)) { bump("plans-set-aside"); return Violation(); }
    Lines a = linesTable(ta), b = linesTable(tb); Table t = deltaTable(ob->text); bool same = o.a[k] == o.a[k + 1];
    std::set<str> langs; for (auto &x : a.cnt) langs.insert(x.first); for (auto &x : b.cnt) langs.insert(x.first); for (auto &x : t) langs.insert(x.first);
    bump("deltas-checked");
    for (auto &l : langs) {
      std::vector<long> x = t.count(l) ? t[l] : std::vector<long>(6); auto ca = a.cnt.count(l) ? a.cnt[l] : std::vector<long>(3), cb = b.cnt.count(l) ? b.cnt[l] : std::vector<long>(3);
      str at = strf("%s -> %s, %s: delta %ld/%ld %ld/%ld %ld/%ld, line counts %ld %ld %ld -> %ld %ld %ld", S[o.a[k]].path.c_str(), S[o.a[k + 1]].path.c_str(), l.c_str(), x[0], x[1], x[2], x[3], x[4], x[5], ca[0], ca[1], ca[2], cb[0], cb[1], cb[2]);
      for (long y : x) if (y < 0) return vio("delta", at + ": negative");
      if (same) { for (long y : x) if (y) return vio("delta", at + ": a revision differs from itself"); }
      if (x[4] - x[5] != cb[2] - ca[2] || x[4] > cb[2] || x[5] > ca[2]) return vio("delta", at + ": blanks");
      if (!a.exact || !b.exact) { bump("deltas-inexact-text"); continue; }
      for (int c = 0; c < 2; c++) {
        if (x[2 * c] - x[2 * c + 1] != cb[c] - ca[c]) return vio("delta", at + (c ? ": net comments" : ": net code"));
        if (x[2 * c] > cb[c] || x[2 * c + 1] > ca[c]) return vio("delta", at + ": more lines than there are");
        auto &ma = c ? a.com[l] : a.code[l]; auto &mb = c ? b.com[l] : b.code[l]; long minA = 0, minR = 0;
        for (auto &e : mb) { long q = ma.count(e.first) ? ma[e.first] : 0; if (e.second > q) minA += e.second - q; }
        for (auto &e : ma) { long q = mb.count(e.first) ? mb[e.first] : 0; if (e.second > q) minR += e.second - q; }
        if (x[2 * c] < minA || x[2 * c + 1] < minR) return vio("delta", at + strf(": at least %ld %s lines are new and %ld gone", minA, c ? "comment" : "code", minR));
        auto &sa = a.seq[c][l], &sb = b.seq[c][l]; long ends, lcs = common(sa, sb, ends); if (lcs < 0) { bump("deltas-not-minimised"); continue; }
        bool small = ta.size() + tb.size() > 0 && textSize(p, S[o.a[k]]) < 99500 && textSize(p, S[o.a[k + 1]]) < 99500; // compared in memory
        if (!small) lcs = ends; // the tool does not promise a smallest difference, but does not count what starts or ends both
        bump(small ? "deltas-minimal" : "deltas-ends-checked");
        if (x[2 * c] > cb[c] - lcs) return vio("delta", at + strf(": %ld %s lines are common to both", lcs, c ? "comment" : "code"));
      }
    }
  }
  return Violation();
}
// ---------------------------------------------------------------- C11
static void faultsForScript(Gen &g, Director &d, int n, bool persistentToo, const std::set<str> &sites) {
  Trace t = d.dry(g.p); if (t.r.crashed || t.r.hang || t.r.harnessError || t.ev.empty()) return;
  std::vector<const Trace::Ev *> c; std::map<str, int> per;
  // "@temp": every call on the temporary directory or a file in it
  bool temps = sites.count("@temp"); auto in = [&](const Trace::Ev &e) { return sites.count(e.site) || (temps && (e.path.compare(0, 6, "(temp)") == 0 || e.path.compare(0, 4, "/tmp") == 0)); };
  for (auto &e : t.ev) if (in(e)) per[e.site]++;
  // pick the site first, so that rare calls are met as often as frequent ones
  strs have; for (auto &x : per) have.push_back(x.first);
  for (int i = 0; i < n && have.size(); i++) {
    str s = g.r.pick(have); long k = g.r.below(per[s]); const Trace::Ev *e = nullptr; for (auto &x : t.ev) if (x.site == s && in(x) && k-- == 0) { e = &x; break; }
    if (!e) continue;
    static const std::map<str, strs> acts = {{"open", {"EIO", "EACCES", "ENOENT", "EMFILE", "ENFILE"}}, {"openw", {"EACCES", "ENOSPC", "EROFS", "EMFILE"}}, {"read", {"EIO", "EINTR", "eof", "ESTALE"}}, {"seek", {"EIO", "ESPIPE"}},
      {"close", {"EIO"}}, {"closew", {"EIO", "ENOSPC", "EDQUOT"}}, {"write", {"ENOSPC", "EIO", "short", "EDQUOT"}}, {"lstat", {"EACCES", "ENOENT", "EIO"}}, {"fstat", {"EIO"}}, {"opendir", {"EACCES", "EMFILE", "ENOENT", "EIO"}}, {"readdir", {"EIO", "ENOENT"}},
      {"mkstemp", {"EACCES", "EMFILE", "ENOSPC", "EROFS"}}, {"unlink", {"EACCES", "EROFS", "EIO"}}, {"popen", {"EMFILE", "ENOMEM", "EAGAIN", "missing", "trouble", "noexec", "killed", "killed-sh", "late-trouble"}}, {"pread", {"EIO", "cut", "EINTR"}}, {"pclose", {"EIO", "killed", "ECHILD"}},
      {"magic_open", {"fail"}}, {"magic_load", {"fail"}}, {"magic_buf", {"fail"}}, {"magic_file", {"fail"}}, {"rename", {"EIO"}}, {"mkdir", {"EIO"}}, {"fsync", {"EIO"}}, {"access", {"EACCES", "ENOENT", "EROFS"}}, {"readlink", {"EACCES", "ENOENT", "EIO"}}, {"getcwd", {"ENOENT", "EACCES"}}, {"dup", {"EMFILE"}}, {"truncate", {"EIO"}}};
    auto a = acts.find(s); if (a == acts.end()) continue;
    bool any = s == "mkstemp" || s == "unlink" || s == "popen" || s == "pread" || s == "pclose" || s.compare(0, 5, "magic") == 0;
    Fault f{e->proc, s, any ? "*" : e->path, persistentToo && g.r.pct(25) ? -1 : (any ? e->nthSite : e->nthPath), g.r.pick(a->second), (long)g.r.below(100)};
    if (f.act == "short") f.arg = g.r.below(std::max(1L, e->size));
    if (f.act == "cut") f.arg = g.r.below(3000);
    g.p.faults.push_back(f);
  }
}
static const std::set<str> SCRIPT_SITES = {"open", "openw", "read", "seek", "close", "closew", "write", "lstat", "fstat", "opendir", "readdir", "mkstemp", "unlink", "popen", "pread", "pclose", "access", "readlink", "getcwd", "dup", "truncate", "rename", "mkdir"};
static Plan genC11(u64 seed, Director &d) {
  Gen g("C11", seed); Rng &r = g.r; g.memoryKnobs(); g.ioKnobs();
  int n = 1 + r.below(5); bool big = r.pct(10);
  for (int i = 0; i < n; i++) g.addSource(r.pct(50) ? "" : strf("d%llu", (unsigned long long)r.below(3)), big && i == 0 ? 105000 : 0);
  if (r.pct(30)) g.sources.push_back("missing.pl");
  if (r.pct(10)) { g.add('p', "pipe.c", "int x;\n"); g.sources.push_back("pipe.c"); }
  // body: creates objects, uses them, frees every one
  Proc body; int m = 1 + r.below(3); bool bigDone = false;
  for (int b = 0; b < m; b++) {
    int k = r.below(6);
    if (k <= 2 || b == 0) {
      str a = r.pick(g.sources); op(body, "new", {"a", a}); if (r.pct(20)) op(body, "setcontents", {"a", g.text()}); if (r.pct(10)) op(body, "new", {"x", "virtual/" + a, a}), op(body, "setdisk", {"x", a}), op(body, "q", {"x", anyKind(r)}), op(body, "free", {"x"});
      int nq = 1 + r.below(4); for (int i = 0; i < nq; i++) { if (r.pct(6)) op(body, "setcontents", {"a", g.text()}); if (r.pct(6)) op(body, "setdisk", {"a", r.pick(g.sources)}); op(body, "q", {"a", anyKind(r)}); } op(body, "free", {"a"});
    } else if (k == 3) {
      op(body, "new", {"a", big && !bigDone ? g.sources[0] : r.pick(g.sources)}); op(body, "new", {"b", r.pick(g.sources)}); bigDone = true;
      op(body, "diff", {"a", "b"}); op(body, "dnew", {"d"}); op(body, "dadd", {"d", "b", "a"}); op(body, "drec", {"d"}); op(body, "dcompact", {"d"}); op(body, "dfree", {"d"}); op(body, "free", {"a"}); op(body, "free", {"b"});
    } else if (k == 4) {
      op(body, "lnew", {"l"}); op(body, "ldir", {"l", r.pct(70) ? "." : "d0"}); if (r.pct(30)) op(body, "ldir", {"l", "nodir"}); if (r.pct(60)) op(body, "ladd", {"l", r.pick(g.sources)});
      if (r.pct(60)) op(body, "lan", {"l"}); op(body, "lq", {"l", anyKind(r)}); op(body, "lfree", {"l"});
    } else {
      op(body, "new", {"a", r.pick(g.sources)}); op(body, "mnew", {"m"}); op(body, "madd", {"m", "a"}); op(body, "madd", {"m", "a"}); op(body, "mrec", {"m"}); op(body, "mcompact", {"m"}); op(body, "mfree", {"m"}); op(body, "free", {"a"});
    }
  }
  // warm-up, clean; then clean again; then three times with the same faults; then clean
  Proc &q = g.script(); auto rep = [&]() { for (auto &o : body.ops) q.ops.push_back(o); };
  op(q, "new", {"w", g.sources[0]}); op(q, "q", {"w", "lic"}); op(q, "free", {"w"});
  rep(); op(q, "res"); rep(); op(q, "res"); for (int i = 0; i < 3; i++) { op(q, "arm"); rep(); op(q, "res"); } op(q, "settle"); rep(); op(q, "res");
  g.p.knob["armed"] = 0;
  if (r.pct(75)) {
    // occurrences are counted from "arm" on, so plan the faults on the body alone
    Gen h("C11x", seed); h.p = g.p; h.p.procs.clear(); h.p.procs.push_back(body); h.p.knob["armed"] = 0; h.r = Rng(seed ^ 0xabc);
    faultsForScript(h, d, 1 + r.below(3), true, SCRIPT_SITES); g.p.faults = h.p.faults;
  }
  g.p.knob["armed"] = 1; if (r.pct(15)) g.p.knob["fdcap"] = 1 + r.below(4);
  return g.p;
}
static Violation checkC11(const Plan &p, Director &d, Result &r) {
  r = d.run(p);
  if (r.harnessError) return vio("harness", "the simulator failed");
  if (r.crashed || r.hang) { bump(r.crashed ? "run-crashed" : "run-hung"); return Violation(); } // other properties speak about these
  str first; int n = 0;
  for (auto &o : r.obs) if (o.kind == "res") {
    strs w = split(o.text, ' '); w.pop_back(); str t; for (auto &x : w) t += x + " ";
    // Data that is built once per process may first be needed in a repetition with faults (the third level).
    if (n++ == 0 || n == 3) { if (n == 3 && t != first) bump("built-once-during-faults"); first = t; }
    else if (t != first) return vio("leak", strf("after repetition %d: live allocations, bytes, descriptors, streams, directories, pipes, detection handles are %s, they were %s", n, t.c_str(), first.c_str()));
  }
  bump("resource-levels-compared", n);
  return Violation();
}
// ---------------------------------------------------------------- C12
static Plan genC12(u64 seed, Director &d) {
  Gen g("C12", seed); Rng &r = g.r; g.memoryKnobs();
  int kind = r.below(10); bool magic = r.pct(5);
  if (!magic && r.pct(7)) { // a text that one expression takes for a licence and another one excludes from it
    str x; if (r.pct(50)) x = strf("/* GNU GENERAL PUBLIC LICENSE%s the GENERAL PUBLIC LICENSE, %s3\n */\nint x;\n", r.pct(50) ? ", as in" : " (see", r.pct(50) ? "Version " : "v");
    else for (auto &c : corpus) if (c.name == "bsd_ish_t1.c") { x = c.data; size_t at = x.find("The name of the author may not be"); if (at != str::npos) x.replace(at, 33, "Neither the name of the The Regents of the University of California may be"); }
    str nm = (const char *[]){"a.c", "b.cpp", "c.java"}[r.below(3)]; g.add('f', nm, x); g.sources = {nm};
    Proc &q = g.script(); op(q, "new", {"z", nm}); op(q, "q", {"z", "lic"}); op(q, "new", {"y", nm}); op(q, "q", {"y", "lic"});
  } else if (kind < 3) { // command line
    int n = 1 + r.below(3); for (int i = 0; i < n; i++) g.addSource(r.pct(50) ? "" : "d");
    strs a = {(const char *[]){"-a", "-d", "-i", "-l", "-re", "-s"}[r.below(6)]}; if (r.pct(70)) a.insert(a.end(), g.sources.begin(), g.sources.end()); g.cli(a);
  } else {
    int n = 1 + r.below(3); for (int i = 0; i < n; i++) g.addSource("", kind == 9 && i == 0 ? 105000 : 0);
    if (r.pct(35)) { // the detections that allocate
      for (int t = 0; t < 40; t++) { const CorpusFile &c = corpus[r.below(corpus.size())]; str e = c.name.size() > 3 ? c.name.substr(c.name.size() - 3) : ""; if (e == ".pp" || e == ".pl" || e == ".in") { g.add('f', "k/" + c.name, c.data); g.sources = {"k/" + c.name}; break; } }
    }
    Proc &q = g.script(); randomOps(g, q, 1 + r.below(7), true, true);
    op(q, "new", {"z", r.pick(g.sources)}); op(q, "q", {"z", r.pct(50) ? "lic" : anyKind(r)}); op(q, "q", {"z", anyKind(r)});
    if (r.pct(30)) { op(q, "new", {"y", r.pick(g.sources)}); op(q, "q", {"y", "lic"}); }
    if (r.pct(15)) { Proc was = q; q.ops.clear(); str a = r.pick(g.sources), b = r.pick(g.sources); op(q, "new", {"v", r.pct(50) ? "virtual/" + a : a, r.pct(60) ? a : b}); if (r.pct(60)) op(q, "setdisk", {"v", b}); op(q, "q", {"v", anyKind(r)}); if (r.pct(30)) q.ops.insert(q.ops.end(), was.ops.begin(), was.ops.end()); }
  }
  if (magic) { g.p.faults.push_back({0, "magic_open", "*", (long)r.below(2), "fail", 0}); return g.p; } // (its handle is an allocation of the library's)
  Trace t = d.dry(g.p); long m = t.r.mallocs[0];
  if (m < 1) m = 1;
  long nth = r.below(m);
  if (r.pct(50) && m > 600) nth = r.pct(50) ? m - 1 - r.below(300) : r.below(300); // the licence expressions dominate otherwise
  g.p.faults.push_back({0, "malloc", "*", nth, "fail", r.pct(15) ? 1 : 0});
  return g.p;
}
static Violation checkC12(const Plan &p, Director &d, Result &r) {
  r = d.run(p);
  if (r.harnessError) return vio("harness", "the simulator failed");
  if (r.hang) return vio("hang", "the process neither answers nor ends");
  bump(r.crashed ? "ended-by-signal" : r.state[0] == ST_EXIT ? "ended-with-status" : "completed");
  if (p.procs[0].cli) {
    if (r.crashed || r.state[0] == ST_EXIT || r.code[0] != 0) return Violation();
    Plan q = p; q.faults.clear(); q.knob.clear(); str want = d.freshQuery(q); const Obs *o = r.find(0, -2, "stdout"); str got = o ? o->text : "";
    if (isAbnormal(want)) return Violation();
    bump("answers-compared");
    if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; size_t b = i > 40 ? i - 40 : 0; return vio("answer", strf("report completes but differs at byte %zu: \"%s\" instead of \"%s\"", i, clip(got.substr(b), 120).c_str(), clip(want.substr(b), 120).c_str())); }
    return Violation();
  }
  str m = cmpScript(p, 0, r, d); if (m.size()) { if (inputsAbnormal(p, d)) { bump("plans-set-aside"); return Violation(); } return vio("answer", m); }
  return Violation();
}
void profiles1() {
  profiles.push_back({"C01", genC01, checkC01, sampleScript});
  profiles.push_back({"C02", genC02, checkScript, sampleScript});
  profiles.push_back({"C06", genC06, checkC06, sampleScript});
  profiles.push_back({"C07", genC07, checkC07, sampleScript});
  profiles.push_back({"C11", genC11, checkC11, sampleScript});
  profiles.push_back({"C12", genC12, checkC12, sampleScript});
}
void planFaults(Gen &g, Director &d, int n, bool persistentToo, const std::set<str> &sites) { faultsForScript(g, d, n, persistentToo, sites); }
void someOps(Gen &g, Proc &q, int n, bool lists, bool diffs) { randomOps(g, q, n, lists, diffs); }
Violation compareCli(const Plan &p, Director &d, const Result &r, int proc) { return cmpCli(p, d, r, proc); }
Table summaryTable(const str &out, Table *total, long *files) { return summaryOf(out, total, files); }
str sampleOf(const Plan &p, const Result &r) { return sampleScript(p, r); }
str kindOf(Rng &r) { return anyKind(r); }
str reviseText(Gen &g, const str &s) { return revise(g, s); }
