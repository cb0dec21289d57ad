// gen.cc: see gen.h
#include "gen.h"
#include "universe.h"

// ---------------------------------------------------------------- inputs
void Gen::memoryKnobs() {
  p.knob["fill"] = r.below(8); p.knob["stackfill"] = r.below(5); p.knob["reuse"] = r.below(3);
}
void Gen::ioKnobs() {
  if (r.pct(60)) p.knob["chunk"] = 1 + r.below(1000000);
  if (r.pct(80)) { p.knob["order"] = 1 + r.below(1000000); p.knob["dtype"] = r.below(3); }
}
static const char *JUNK[] = {"/*", "*/", "\"", "'", "<?php\n", "?>", "<script>\n", "</script>", "<%\n", "%>", "<!--", "-->", "\\\n", "#", "//", "\n\n\n", "\r\n", "<<EOF\n", "EOF\n",
  "=begin\n", "=end\n", "{-", "-}", "(*", "*)", "\"\"\"", "'''", "%{\n", "%}\n", "[[", "]]", "--[[", "\t \t", "<style>\n", "</style>\n", "__END__\n", "#!/usr/bin/perl\n", "/* -*- mode: ruby -*- */\n", "class Foo {\n",
  "include\t\"x.h\";\n", "#include <map>\n", "template <class T>\n", "implement X;\n", "10 PRINT X\n", "GNU General Public License\n", ":- module(x).\n", "REBOL\n", "<?cs x ?>", "</style\n", "</script\n>", "'?>", "<?php\n?>\n", "'<?php\n?>\n", "\nclass X", "\nusing namespace a;", "\ntypename ", "{", "}", "\xc3\xa9", "`", "$", "@", "\x1f"};
static str genLines(Rng &r, int n) {
  static const char *w[] = {"int", "x", "=", "foo", "(a)", ";", "{", "}", "return", "if", "else", "0", "\"s\"", "// c", "/* c */", "# c", "-- c", "end", "def", "class", "let", "", "  ", "\t", "while", "%d", "print"};
  str s; for (int i = 0; i < n; i++) { int k = r.below(7); for (int j = 0; j < k; j++) { s += w[r.below(27)]; s += ' '; } s += '\n'; } return s;
}
str Gen::mutate(const str &in, int more) {
  str s = in; int n = 1 + r.below(3) + more;
  for (int i = 0; i < n; i++) switch (r.below(12)) {
    case 0: s = s.substr(0, r.below(s.size() + 1)); break;
    case 1: { size_t a = r.below(s.size() + 1); s.insert(a, JUNK[r.below(sizeof JUNK / sizeof *JUNK)]); break; }
    case 2: { size_t a = s.find('\n', r.below(s.size() + 1)); if (a != str::npos) s.insert(a + 1, JUNK[r.below(sizeof JUNK / sizeof *JUNK)]); break; }
    case 3: { strs l = split(s, '\n'); if (l.size() > 2) { l.erase(l.begin() + r.below(l.size() - 1)); s.clear(); for (size_t k = 0; k < l.size(); k++) s += (k ? "\n" : "") + l[k]; } break; }
    case 4: { size_t a = r.below(s.size() + 1), b = a + r.below(200); s.insert(r.below(s.size() + 1), s.substr(a, b - a)); break; }
    case 5: if (s.size() && s.back() == '\n') s.pop_back(); break;
    case 6: { str t; for (char c : s) { if (c == '\n') t += '\r'; t += c; } s = t; break; }
    case 7: s += genLines(r, 1 + r.below(12)); break;
    case 8: s = genLines(r, 1 + r.below(6)) + s; break;
    case 9: s += corpus[r.below(corpus.size())].data; break;
    case 11: { // a line as long as the buffers that lines are copied to
      static const int lens[] = {39, 40, 41, 79, 80, 81, 82, 99, 100, 101, 127, 128, 255, 256, 257, 499, 500, 501, 1023, 1024, 2047, 2048, 4095, 4096, 4097, 8191, 8192};
      size_t a = r.pct(40) ? 0 : s.find('\n', r.below(s.size() + 1)); a = a == str::npos ? 0 : a ? a + 1 : 0; size_t e = s.find('\n', a); if (e == str::npos) e = s.size();
      size_t L = lens[r.below(r.pct(85) ? 20 : 27)]; if (e - a > L) s.erase(a + L, e - a - L); else s.insert(r.pct(50) ? a : e, str(L - (e - a), " x#/;"[r.below(5)]));
      break; }
    case 10: { strs l = split(s, '\n'); if (l.size() > 3) { std::swap(l[r.below(l.size() - 1)], l[r.below(l.size() - 1)]); s.clear(); for (size_t k = 0; k < l.size(); k++) s += (k ? "\n" : "") + l[k]; } break; }
  }
  if (s.size() > 60000) s.resize(60000);
  return s;
}
str Gen::text(int big) {
  // languages that embed others, and headers, have the most state; they are taken more often than their share
  static std::vector<int> rich; if (rich.empty()) for (size_t i = 0; i < corpus.size(); i++) { const str &n = corpus[i].name; size_t d = n.rfind('.'); str e = d == str::npos ? "" : n.substr(d); for (auto x : {".php", ".html", ".htm", ".rhtml", ".cs", ".jsp", ".h", ".m", ".aspx", ".xml", ".erb", ".phtml", ".in", ".bas", ".pp", ".b"}) if (e == x) rich.push_back(i); }
  bool hard = rich.size() && !pristine && r.pct(18);
  const CorpusFile &c = corpus[hard ? rich[r.below(rich.size())] : r.below(corpus.size())];
  name = c.name; str s = c.data;
  int k = r.below(100);
  if (pristine) return s;
  if (hard && !big) { if (s.size() > 1500) { size_t a = r.below(s.size()); s = s.substr(a, 200 + r.below(1500)); } return mutate(s, 3); }
  if (k < 8) name = corpus[r.below(corpus.size())].name;           // text of one language under another's name
  else if (k < 12) { size_t d = name.rfind('.'); if (d != str::npos && d > 0) name = name.substr(0, d); } // no extension
  else if (k < 15) s = genLines(r, r.below(30));
  else if (k < 17) s = r.pct(60) ? "" : (const char *[]){"\n", "\n\n\n", " \n\t\n", "\r\n", "   "}[r.below(5)];
  if (!big && r.pct(5)) { s = plainText(); if (r.pct(60)) name = plainName(); }
  else if (r.pct(35)) s = mutate(s);
  if (!big && s.size() && r.pct(5)) { // as long as a page, a block or a buffer is, or one byte off
    static const long sizes[] = {64, 128, 256, 512, 1024, 2048, 4096, 4096, 8192, 8192, 12288, 16384, 32768}; size_t want = sizes[r.below(13)] - 1 + r.below(3);
    if (s.size() < want && want < 20 * s.size() + 4097) { str l = s.size() > 300 ? s.substr(s.size() - 300) : s; size_t nl = l.find('\n'); if (nl != str::npos && nl + 1 < l.size()) l = l.substr(nl + 1); if (r.pct(30)) l = (const char *[]){"\n", "x\n", " \n", "\n\n# y\n"}[r.below(4)]; while (s.size() < want) s += l; }
    if (s.size() > want) { s.resize(want); if (r.pct(60)) s.back() = '\n'; } }
  if (big) { // long texts of tame lines: many unbalanced comments would send the parsers backtracking for seconds
    str head = s.substr(0, 3000), t; if (head.size() && head.back() != '\n') head += "\n";
    if (r.pct(70)) t = head;
    static const char *w[] = {"x%llu = %llu;", "# note %llu %llu", "// note %llu %llu", "  call(%llu, %llu)", "-- note %llu %llu", "", "end %llu %llu", "v%llu[%llu]"};
    int uniq = r.pct(80) ? 100000 : 2000; long L = 0;
    while ((long)t.size() < big) { const char *f = w[r.below(8)]; t += strf(f, (unsigned long long)r.below(uniq), (unsigned long long)L++ % (uniq * 7)); t += "\n"; }
    s = t; }
  return s;
}
str Gen::addSource(const str &dir, int big) {
  str t = text(big); if (name.size() == 2 && name[0] == 'd' && isdigit(name[1])) name += "_"; // (directories are called d0, d1 ...)
  str path = (dir.empty() ? "" : dir + "/") + name;
  for (auto &f : p.files) if (f.path == path) { path = (dir.empty() ? "" : dir + "/") + strf("u%d/", nfile) + name; break; }
  if (!big && !pristine && (p.prop == "C01" || p.prop == "C02" || p.prop == "C03") && r.pct(6)) { // bytes that end a C string
    int n = 1 + r.below(3); for (int i = 0; i < n; i++) t.insert(r.pct(50) ? t.size() : r.below(t.size() + 1), str(1 + r.below(r.pct(80) ? 2 : 40), '\0')); }
  nfile++; add('f', path, t); sources.push_back(path); return path;
}

// Texts that say themselves which language they are in: interpreter lines and editor mode lines, near the lengths
// the detector copies lines into, and texts that say nothing at all.
str Gen::plainText() {
  static const char *lang[] = {"ruby", "python", "perl", "c", "C", "c++", "sh", "lisp", "Emacs-Lisp", "tcl", "html", "makefile", "Haskell", "rb", "F90", "java", "shell", "nosuch", "", "text", "cmake", "scheme"};
  static const char *prog[] = {"/bin/sh", "/usr/bin/perl -w", "/usr/bin/env python", "/usr/bin/ruby", "/usr/bin/tclsh", "/bin/awk -f", "/usr/bin/env lua", "/usr/bin/php", "/bin/bash", "/opt/nosuch", ""};
  int k = r.below(100);
  if (k < 22) return "";
  if (k < 28) return (const char *[]){"\n", " ", "\n\n", "\r\n", "#!"}[r.below(5)];
  str s; if (r.pct(35)) s = str("#!") + prog[r.below(11)] + (r.pct(90) ? "\n" : "\r\n");
  if (r.pct(75)) {
    str l = (const char *[]){"# ", "// ", "/* ", ";; ", "", "%% "}[r.below(6)]; l += "-*-"; if (r.pct(70)) l += " "; if (r.pct(60)) l += r.pct(50) ? "mode: " : "Mode:";
    l += lang[r.below(22)]; int e = r.below(10); l += e < 5 ? " -*-" : e < 6 ? "-*-" : e < 7 ? ";" : e < 8 ? " " : "";
    if (r.pct(35)) { size_t at = 74 + r.below(11); if (l.size() < at) l.insert(0, str(at - l.size(), "# x/"[r.below(4)])); }
    s += l; if (r.pct(85)) s += "\n";
  }
  if (r.pct(60)) s += genLines(r, 1 + r.below(5));
  return s;
}
str Gen::plainName() { static const char *n[] = {"README", "script", "x.nosuchext", "Config", "a", "run.", "data.zzz", "-", "tool"}; return n[r.below(9)]; }

// Many very small files of languages that share a parser, or of any name the detector knows: what one parse leaves
// behind shows best when the next one is almost empty, or when it never gets to set what it uses.
str Gen::tinyText(const strs &names) {
  strs pool; for (int i = 0; i < 400 && pool.size() < 4; i++) { const CorpusFile &c = corpus[r.below(corpus.size())]; size_t d = c.name.rfind('.'); if (d == str::npos) continue; str e = "f" + c.name.substr(d); for (auto &n : names) if (n == e) { pool.push_back(c.data); break; } }
  str s = pool.size() && r.pct(85) ? r.pick(pool) : corpus[r.below(corpus.size())].data;
  int k = r.below(100);
  if (k < 16) return "";
  if (k < 22) return r.pct(50) ? "\n" : " ";
  strs l = split(s, '\n');
  if (k < 62) { size_t a = r.below(l.size()), n = 1 + r.below(3); str t; for (size_t i = a; i < l.size() && i < a + n; i++) t += l[i] + "\n"; if (r.pct(45) && t.size()) t.pop_back(); return t; }
  if (k < 78) { str t; size_t n = 1 + r.below(12); for (size_t i = 0; i < l.size() && i < n; i++) t += l[i] + "\n"; if (r.pct(35)) t = t.substr(0, r.below(t.size() + 1)); return t; }
  if (k < 90) { str t = JUNK[r.below(sizeof JUNK / sizeof *JUNK)]; if (r.pct(50)) t += "x = 1;" + str(r.pct(50) ? "\n" : ""); if (r.pct(30)) t += JUNK[r.below(sizeof JUNK / sizeof *JUNK)]; return t; }
  return genLines(r, 1 + r.below(4));
}
void Gen::tinyFamily(strs &langs) {
  static std::vector<int> many; if (many.empty()) for (size_t i = 0; i < UNI_FAMILIES.size(); i++) if (UNI_FAMILIES[i].langs.size() > 1) many.push_back(i);
  strs names; int k = r.below(100);
  if (k < 50) { auto &f = UNI_FAMILIES[many[r.below(many.size())]]; names = f.names; langs = f.langs; }
  else if (k < 70) { auto &f = UNI_FAMILIES[r.below(UNI_FAMILIES.size())]; names = f.names; langs = f.langs; }
  else { for (int i = 0; i < 4; i++) { names.push_back(UNI_NAMES[r.below(UNI_NAMES.size())]); langs.push_back(UNI_LANGS[r.below(UNI_LANGS.size())]); } }
  int n = 3 + r.below(9), plain = r.pct(15) ? 75 : r.pct(15) ? 20 : 0;
  for (int i = 0; i < n; i++) {
    if (r.pct(plain)) { str path = strf("p%d/", i) + (r.pct(90) ? plainName() : UNI_NAMES[r.below(UNI_NAMES.size())]); if (r.pct(88)) add('f', path, plainText()); sources.push_back(path); nfile++; continue; }
    str dir = r.pct(40) ? "" : strf("d%llu/", (unsigned long long)r.below(4)), nm = r.pct(90) ? names[r.below(names.size())] : UNI_NAMES[r.below(UNI_NAMES.size())], path = dir + nm;
    bool dup = false; for (auto &f : p.files) if (f.path == path) dup = true;
    if (dup) path = strf("t%d/", i) + nm;
    add('f', path, tinyText(names)); sources.push_back(path); nfile++;
  }
}

// ---------------------------------------------------------------- models
strs linesOf(const str &s) { strs r; size_t a = 0; while (a < s.size()) { size_t b = s.find('\n', a); if (b == str::npos) { r.push_back(s.substr(a)); break; } r.push_back(s.substr(a, b - a)); a = b + 1; } return r; }
std::map<str, long> bag(const strs &v) { std::map<str, long> m; for (auto &x : v) m[x]++; return m; }
str relTree(const str &path) {
  str s = path;
  if (s.compare(0, 7, "@/tree/") == 0) s = s.substr(7);
  else if (s.size() && (s[0] == '@' || s[0] == '/')) return "";
  while (s.compare(0, 2, "./") == 0) s = s.substr(2);
  str o; for (char c : s) if (c != '/' || o.empty() || o.back() != '/') o += c;
  return o;
}
static Plan miniBase(const Plan &p, const strs &paths) {
  Plan m; m.prop = "-";
  std::set<str> want; for (auto &x : paths) want.insert(relTree(x));
  bool links = false;
  for (auto &f : p.files) if (f.type == 'l' && want.count(f.path)) links = true;
  for (auto &f : p.files) if (f.type != 't' && (links || want.count(f.path))) m.files.push_back(f);
  return m;
}
static void defObj(Proc &q, const str &slot, const Obj &o) {
  strs a = {slot, o.path}; if (o.disk.size()) a.push_back(o.disk);
  op(q, "new", a);
  if (o.hasContents) op(q, "setcontents", {slot, o.contents});
  if (o.lang.size()) op(q, "setlang", {slot, o.lang});
  if (o.names.size()) { strs n = {slot}; n.insert(n.end(), o.names.begin(), o.names.end()); op(q, "setnames", n); }
}
Plan miniObj(const Plan &p, const std::vector<Obj> &o, const Op &query) {
  strs paths; for (auto &x : o) { paths.push_back(x.path); if (x.disk.size()) paths.push_back(x.disk); }
  Plan m = miniBase(p, paths); Proc q;
  for (size_t i = 0; i < o.size(); i++) defObj(q, str(1, 'a' + i), o[i]);
  q.ops.push_back(query); m.procs.push_back(q); return m;
}
str askObj(const Plan &p, Director &d, const Obj &o, const str &kind) { return d.freshQuery(miniObj(p, {o}, {"q", {"a", kind}})); }
str askDiff(const Plan &p, Director &d, const Obj &a, const Obj &b) { return d.freshQuery(miniObj(p, {a, b}, {"diff", {"a", "b"}})); }
str askCli(const Plan &p, Director &d, const strs &argv) {
  strs paths(argv.begin() + 1, argv.end()); Plan m = miniBase(p, paths); Proc q; q.cli = true; q.argv = argv; m.procs.push_back(q); return d.freshQuery(m);
}
bool isAbnormal(const str &a) { return a.size() && a[0] == '!'; }
Table locTable(const str &t) { Table r; for (auto &l : linesOf(t)) { strs w = split(l, ' '); if (w.size() < 5 || w[0] == "=") continue; auto &v = r[w[0]]; v.resize(4); for (int i = 0; i < 4; i++) v[i] += atol(w[i + 1].c_str()); } return r; }
Table deltaTable(const str &t) { Table r; for (auto &l : linesOf(t)) { strs w = split(l, ' '); if (w.size() < 7 || w[0] == "=") continue; auto &v = r[w[0]]; v.resize(6); for (int i = 0; i < 6; i++) v[i] += atol(w[i + 1].c_str()); } return r; }
static void addTo(Table &a, const Table &b) { for (auto &x : b) { auto &v = a[x.first]; v.resize(x.second.size()); for (size_t i = 0; i < v.size(); i++) v[i] += x.second[i]; } }
static str tableText(const Table &t, bool delta) {
  str r; std::vector<long> s(delta ? 6 : 4);
  for (auto &x : t) { r += x.first; for (size_t i = 0; i < x.second.size(); i++) { r += strf(" %ld", x.second[i]); s[i] += x.second[i]; } r += "\n"; }
  if (delta) r += strf("= %ld %ld %ld %ld %ld %ld net %ld %ld %ld %ld", s[0], s[1], s[2], s[3], s[4], s[5], s[0] - s[1], s[2] - s[3], s[4] - s[5], s[0] - s[1] + s[2] - s[3] + s[4] - s[5]);
  else r += strf("= %ld %ld %ld %ld %ld", s[0], s[1], s[2], s[0] + s[1] + s[2], s[3]);
  return r;
}
static str sortedText(const str &t) { strs l = linesOf(t); str last; if (l.size() && l.back()[0] == '=') { last = l.back(); l.pop_back(); } std::sort(l.begin(), l.end()); str r; for (auto &x : l) r += x + "\n"; return r + last; }
static Table compactOf(const Table &t, bool delta) { Table r; for (auto &x : t) { bool keep = false; if (delta) { for (long v : x.second) keep |= v != 0; } else keep = x.second[0] + x.second[1] + x.second[2] != 0; if (keep) r.insert(x); } return r; }

// Replays the script against fresh processes; returns "" or what differs. Aggregates follow from single answers.
str cmpScript(const Plan &p, int proc, const Result &r, Director &d, const std::function<bool(const Obj &)> &skip) {
  std::map<str, Obj> S; std::map<str, Table> D, M; std::map<str, strs> L; std::set<str> badM, badD;
  std::map<int, const Obs *> at; // last observation of each operation
  for (auto &o : r.obs) if (o.proc == proc && o.op >= 0 && o.kind[0] != '!' && o.kind[0] != '~') at[o.op] = &o;
  const auto &ops = p.procs[proc].ops;
  auto sk = [&](const str &s) { return skip && skip(S[s]); };
  for (size_t i = 0; i < ops.size(); i++) {
    const Op &o = ops[i]; auto a = [&](size_t k) -> str { return k < o.a.size() ? o.a[k] : ""; };
    str want, got = at.count(i) ? at[i]->text : "(no answer)"; bool have = at.count(i), cmp = false;
    if (o.name == "new") { Obj x; x.path = a(1); x.disk = a(2); S[a(0)] = x; }
    else if (o.name == "setdisk") { if (S.count(a(0))) S[a(0)].disk = a(1); }
    else if (o.name == "setcontents") { if (S.count(a(0))) { S[a(0)].hasContents = true; S[a(0)].contents = a(1).c_str(); } }
    else if (o.name == "setlang") { if (S.count(a(0))) S[a(0)].lang = a(1); }
    else if (o.name == "setnames") { if (S.count(a(0))) S[a(0)].names = strs(o.a.begin() + 1, o.a.end()); }
    else if (o.name == "free") S.erase(a(0));
    else if (o.name == "q") { if (S.count(a(0)) && have && !sk(a(0))) { want = askObj(p, d, S[a(0)], a(1)); cmp = true; } }
    else if (o.name == "diff" || o.name == "dadd") {
      int k = o.name == "dadd";
      if (k && !D.count(a(0))) continue;
      if (S.count(a(k)) && S.count(a(k + 1))) {
        if (sk(a(k)) || sk(a(k + 1))) { if (k) badD.insert(a(0)); continue; }
        want = askDiff(p, d, S[a(k)], S[a(k + 1)]); cmp = have; if (k) addTo(D[a(0)], deltaTable(want));
      }
    }
    else if (o.name == "dnew") { D[a(0)] = Table(); badD.erase(a(0)); }
    else if (o.name == "dmerge") { if (D.count(a(0)) && D.count(a(1)) && a(0) != a(1)) { addTo(D[a(0)], D[a(1)]); if (badD.count(a(1))) badD.insert(a(0)); } }
    else if (o.name == "dfree") D.erase(a(0));
    else if (o.name == "drec" || o.name == "dcompact") { if (D.count(a(0)) && have && !badD.count(a(0))) { want = tableText(o.name == "drec" ? D[a(0)] : compactOf(D[a(0)], true), true); got = sortedText(got); cmp = true; } }
    else if (o.name == "mnew") { M[a(0)] = Table(); badM.erase(a(0)); }
    else if (o.name == "madd") { if (M.count(a(0)) && S.count(a(1))) { if (sk(a(1))) badM.insert(a(0)); else addTo(M[a(0)], locTable(askObj(p, d, S[a(1)], "loc"))); } }
    else if (o.name == "mmerge") { if (M.count(a(0)) && M.count(a(1)) && a(0) != a(1)) { addTo(M[a(0)], M[a(1)]); if (badM.count(a(1))) badM.insert(a(0)); } }
    else if (o.name == "mfree") M.erase(a(0));
    else if (o.name == "mrec" || o.name == "mcompact") { if (M.count(a(0)) && have && !badM.count(a(0))) { want = tableText(o.name == "mrec" ? M[a(0)] : compactOf(M[a(0)], false), false); got = sortedText(got); cmp = true; } }
    else if (o.name == "lnew") L[a(0)] = {};
    else if (o.name == "lfree") L.erase(a(0));
    else if (o.name == "ladd") { if (L.count(a(0))) L[a(0)].push_back(a(1)); }
    else if (o.name == "lq") {
      if (L.count(a(0)) && have) {
        strs gl = linesOf(got), wl; size_t gi = 0; cmp = false;
        if (gl.size() != L[a(0)].size()) return strf("operation %zu (lq %s): %zu entries instead of %zu", i, a(1).c_str(), gl.size(), L[a(0)].size());
        for (auto &path : L[a(0)]) {
          Obj x; x.path = path; str g = gl[gi++]; if (skip && skip(x)) continue;
          strs w = split(g, ' '); str ans = a(1).size() ? askObj(p, d, x, a(1)) : "";
          if (w.size() > 1 && unesc(w[1]) != ans) return strf("operation %zu (%s of %s in a list): got \"%s\", a fresh process gives \"%s\"", i, a(1).c_str(), path.c_str(), clip(unesc(w[1])).c_str(), clip(ans).c_str());
        }
      }
    }
    else if (o.name == "lan") {
      if (L.count(a(0)) && have) {
        Table t; bool bad = false; for (auto &path : L[a(0)]) { Obj x; x.path = path; if (skip && skip(x)) { bad = true; continue; } addTo(t, locTable(askObj(p, d, x, "loc"))); }
        if (!bad) { want = tableText(t, false); got = sortedText(got); cmp = true; }
      }
    }
    if (cmp) {
      bump("answers-compared");
      if (got != want) return strf("operation %zu (%s %s): got \"%s\", a fresh process gives \"%s\"", i, o.name.c_str(), (a(0) + " " + a(1).substr(0, 80)).c_str(), clip(got).c_str(), clip(want).c_str());
    }
  }
  return "";
}
Violation vio(const str &cls, const str &msg) { Violation v; v.is = true; v.cls = cls; v.msg = msg; return v; }

// An input on which a fresh process alone ends abnormally says nothing about interference; such plans are put aside.
bool inputsAbnormal(const Plan &p, Director &d) {
  std::set<str> seen;
  for (auto &q : p.procs) {
    if (q.cli) continue;
    std::map<str, Obj> S;
    for (auto &o : q.ops) {
      auto a = [&](size_t k) -> str { return k < o.a.size() ? o.a[k] : ""; };
      if (o.name == "new") { Obj x; x.path = a(1); x.disk = a(2); S[a(0)] = x; }
      else if (o.name == "setcontents") { S[a(0)].hasContents = true; S[a(0)].contents = a(1); }
      else if (o.name == "setlang") S[a(0)].lang = a(1);
      else if (o.name == "setnames") S[a(0)].names = strs(o.a.begin() + 1, o.a.end());
      else if (o.name == "q" && S.count(a(0))) { if (isAbnormal(askObj(p, d, S[a(0)], a(1)))) return true; }
    }
  }
  for (auto &f : p.files) if (f.type == 'f') {
    Obj x; x.path = f.path;
    for (auto k : {"loc", "ents", "lic"}) if (isAbnormal(askObj(p, d, x, k))) return true;
  }
  return false;
}
Violation endings(const Plan &p, Director &d, const Result &r, bool exitOk, bool memCounts, bool setAside) {
  Violation v;
  if (r.harnessError) return vio("harness", "the simulator failed");
  str where;
  if (r.crashProc < (int)p.procs.size()) { const Proc &q = p.procs[r.crashProc]; where = q.cli ? "command line run" : r.crashOp >= 0 && r.crashOp < (int)q.ops.size() ? "operation " + std::to_string(r.crashOp) + " (" + q.ops[r.crashOp].name + ")" : "?"; }
  if (r.crashed && r.sig == SIGILL) return vio("memory", strf("process %d indexes outside of an array in %s", r.crashProc, where.c_str())); // (compiled with -fsanitize=bounds: of this program's own arrays)
  if (r.crashed) v = vio("crash", strf("process %d dies of signal %d in %s", r.crashProc, r.sig, where.c_str()));
  else if (r.hang) v = vio("hang", strf("process %d does not finish (%s)", r.crashProc, where.c_str()));
  else if (memCounts) for (auto &o : r.obs) if (o.kind == "!mem") { v = vio("memory", o.text); break; }
  if (!v.is && !exitOk)
    for (size_t i = 0; i < p.procs.size() && i < NPROC; i++)
      if (r.state[i] == ST_EXIT) { bool k = false; for (auto &o : r.obs) if (o.kind == "~abort") k = true; v = vio("exit", strf("process %zu ends early with status %d%s", i, r.code[i], k ? " (abort)" : "")); break; }
  if (v.is && setAside && inputsAbnormal(p, d)) { bump("plans-set-aside"); return Violation(); }
  return v;
}
str cliBody(const str &flag, const str &out) {
  if (flag != "-i") return out;
  strs l = linesOf(out); str r; bool in = false;
  for (auto &x : l) { if (in) r += x + "\n"; else if (x.compare(0, 10, "----------") == 0) in = true; }
  return r;
}
